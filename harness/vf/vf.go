// Package vf holds the expression functions used in generated flows.
package vf

import (
	"errors"
	"fmt"
	"strings"

	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/expression/function"
)

// Probe observes the evaluation of a mapping; its result is the value of the expression.
var Probe func(kind, pid, task string, key interface{}) interface{}

func init() {
	_ = function.Register(&fnProbe{})
	_ = function.Register(&fnSeq{})
	_ = function.Register(&fnList{})
	_ = function.Register(&fnFst{})
	_ = function.Register(&fnFail{})
	_ = function.Register(&fnBoom{})
	_ = function.Register(&fnID{})
	_ = function.Register(&fnHas{})
}

type fnProbe struct{}

func (*fnProbe) Name() string { return "probe" }
func (*fnProbe) Sig() ([]data.Type, bool) {
	return []data.Type{data.TypeAny, data.TypeAny, data.TypeAny, data.TypeAny}, false
}
func str(v interface{}) string {
	s, _ := v.(string)
	return s
}
func (*fnProbe) Eval(p ...interface{}) (interface{}, error) {
	if Probe != nil {
		return Probe(str(p[0]), str(p[1]), str(p[2]), p[3]), nil
	}
	return nil, nil
}

// seq(a,b,..) evaluates all and yields the last
type fnSeq struct{}

func (*fnSeq) Name() string             { return "seq" }
func (*fnSeq) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, true }
func (*fnSeq) Eval(p ...interface{}) (interface{}, error) {
	return p[len(p)-1], nil
}

// fst(a,b,..) evaluates all and yields the first
type fnFst struct{}

func (*fnFst) Name() string             { return "fst" }
func (*fnFst) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, true }
func (*fnFst) Eval(p ...interface{}) (interface{}, error) {
	return p[0], nil
}

type fnList struct{}

func (*fnList) Name() string             { return "list" }
func (*fnList) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, true }
func (*fnList) Eval(p ...interface{}) (interface{}, error) {
	return append([]interface{}{}, p...), nil
}

type fnID struct{}

func (*fnID) Name() string             { return "id" }
func (*fnID) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, false }
func (*fnID) Eval(p ...interface{}) (interface{}, error) {
	return p[0], nil
}

// has(s,t) tells if the string s contains t
type fnHas struct{}

func (*fnHas) Name() string             { return "has" }
func (*fnHas) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny, data.TypeAny}, false }
func (*fnHas) Eval(p ...interface{}) (interface{}, error) {
	return strings.Contains(str(p[0]), str(p[1])), nil
}

type fnFail struct{}

func (*fnFail) Name() string             { return "fail" }
func (*fnFail) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, true }
func (*fnFail) Eval(p ...interface{}) (interface{}, error) {
	return nil, errors.New("exprfail:" + fmt.Sprint(p[0]))
}

type fnBoom struct{}

func (*fnBoom) Name() string             { return "boom" }
func (*fnBoom) Sig() ([]data.Type, bool) { return []data.Type{data.TypeAny}, true }
func (*fnBoom) Eval(p ...interface{}) (interface{}, error) {
	panic("exprboom:" + fmt.Sprint(p[0]))
}
