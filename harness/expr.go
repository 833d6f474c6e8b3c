package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Expr is an expression of the generated flows
type Expr struct {
	K    string      `json:"k"`             // lit flow act acc err ctx iter op not neg cond fn prop
	V    interface{} `json:"v,omitempty"`   // literal
	Name string      `json:"n,omitempty"`   // attribute, task, function or operator
	Out  string      `json:"o,omitempty"`   // output / error field
	Path []string    `json:"p,omitempty"`   // path below the value
	Args []*Expr     `json:"a,omitempty"`   // operands
	Dot  bool        `json:"dot,omitempty"` // use $.name instead of $flow.name
}

func Lit(v interface{}) *Expr                { return &Expr{K: "lit", V: v} }
func FlowRef(n string, path ...string) *Expr { return &Expr{K: "flow", Name: n, Path: path} }
func ActRef(t, o string, path ...string) *Expr {
	return &Expr{K: "act", Name: t, Out: o, Path: path}
}
func ErrRef(t, f string) *Expr         { return &Expr{K: "err", Name: t, Out: f} }
func CtxRef(n string) *Expr            { return &Expr{K: "ctx", Name: n} }
func IterRef(n string) *Expr           { return &Expr{K: "iter", Name: n} }
func Op(op string, a, b *Expr) *Expr   { return &Expr{K: "op", Name: op, Args: []*Expr{a, b}} }
func Fn(n string, args ...*Expr) *Expr { return &Expr{K: "fn", Name: n, Args: args} }

func litText(v interface{}) string {
	switch t := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(t)
	case bool:
		return strconv.FormatBool(t)
	case int:
		return strconv.Itoa(t)
	case float64:
		if t == float64(int64(t)) {
			return strconv.FormatInt(int64(t), 10)
		}
		return strconv.FormatFloat(t, 'f', -1, 64)
	}
	panic(fmt.Sprintf("literal %T", v))
}

// Text renders the expression in the flow's expression language
func (e *Expr) Text() string {
	path := func() string {
		s := ""
		for _, p := range e.Path {
			if p != "" && p[0] >= '0' && p[0] <= '9' {
				s += "[" + p + "]"
			} else {
				s += "." + p
			}
		}
		return s
	}
	switch e.K {
	case "lit":
		return litText(e.V)
	case "flow":
		if e.Dot {
			return "$." + e.Name + path()
		}
		return "$flow." + e.Name + path()
	case "act":
		return "$activity[" + e.Name + "]." + e.Out + path()
	case "acc":
		return "$activity[" + e.Name + "]" + path()
	case "err":
		s := "$error"
		if e.Name != "" {
			s += "[" + e.Name + "]"
		}
		if e.Out != "" {
			s += "." + e.Out
		}
		return s + path()
	case "ctx":
		return "$flowctx[" + e.Name + "]"
	case "iter":
		return "$iteration[" + e.Name + "]" + path()
	case "prop":
		return "$property[" + e.Name + "]" + path()
	case "env":
		return "$env[" + e.Name + "]"
	case "op":
		return "(" + e.Args[0].Text() + " " + e.Name + " " + e.Args[1].Text() + ")"
	case "not":
		return "!" + e.Args[0].Text()
	case "cond":
		return "(" + e.Args[0].Text() + " ? " + e.Args[1].Text() + " : " + e.Args[2].Text() + ")"
	case "fn":
		var as []string
		for _, a := range e.Args {
			as = append(as, a.Text())
		}
		return "vf." + e.Name + "(" + strings.Join(as, ", ") + ")"
	}
	panic("expr kind " + e.K)
}

// the properties of the application and the environment variables of the generated flows
var (
	appProps = map[string]interface{}{"p": "prop", "np": 7, "op": map[string]interface{}{"x": "deep"}}
	appEnv   = map[string]interface{}{"VRUN_REF": "env value"}
)

// EvalErr is a failed evaluation; the reported error contains Tok
type EvalErr struct{ Tok string }

// Env gives an expression its values in the model
type Env interface {
	Flow(name string) (interface{}, bool)
	Act(task, out string) (interface{}, bool)
	Acc(task string) (interface{}, bool)
	Err(task, field string) (interface{}, bool)
	Ctx(name string) (interface{}, bool)
	Iter(name string) (interface{}, bool)
}

// Contains matches any string that contains Tok
type Contains struct{ Tok string }

// OneOf matches any of the values
type OneOf struct{ Vals []interface{} }

// Sym matches a string that is not known yet and is bound to the first one seen
type Sym struct {
	Val   string
	Bound bool
}

// Any matches anything
type Any struct{}

func walkPath(v interface{}, path []string) (interface{}, bool) {
	for _, p := range path {
		switch t := v.(type) {
		case map[string]interface{}:
			x, ok := t[p]
			if !ok {
				return nil, false
			}
			v = x
		case []interface{}:
			i, err := strconv.Atoi(p)
			if err != nil || i < 0 || i >= len(t) {
				return nil, false
			}
			v = t[i]
		case Any:
			return Any{}, true
		default:
			return nil, false
		}
	}
	return v, true
}

// Eval evaluates the expression in the model
func (e *Expr) Eval(env Env) (interface{}, *EvalErr) {
	ref := func(v interface{}, ok bool) (interface{}, *EvalErr) {
		if !ok {
			return nil, &EvalErr{}
		}
		v, ok = walkPath(v, e.Path)
		if !ok {
			return nil, &EvalErr{}
		}
		return v, nil
	}
	switch e.K {
	case "lit":
		return e.V, nil
	case "flow":
		return ref(env.Flow(e.Name))
	case "act":
		return ref(env.Act(e.Name, e.Out))
	case "acc":
		return ref(env.Acc(e.Name))
	case "err":
		return ref(env.Err(e.Name, e.Out))
	case "ctx":
		return ref(env.Ctx(e.Name))
	case "iter":
		return ref(env.Iter(e.Name))
	case "prop":
		v, ok := appProps[e.Name]
		return ref(v, ok)
	case "env":
		v, ok := appEnv[e.Name]
		return ref(v, ok)
	case "not":
		v, err := e.Args[0].Eval(env)
		if err != nil {
			return nil, err
		}
		b, ok := v.(bool)
		if !ok {
			return nil, &EvalErr{}
		}
		return !b, nil
	case "cond":
		v, err := e.Args[0].Eval(env)
		if err != nil {
			return nil, err
		}
		if b, ok := v.(bool); ok && b {
			return e.Args[1].Eval(env)
		}
		return e.Args[2].Eval(env)
	case "op":
		if e.Name == "&&" || e.Name == "||" {
			l, err := e.Args[0].Eval(env)
			if err != nil {
				return nil, err
			}
			r, err := e.Args[1].Eval(env)
			if err != nil {
				return nil, err
			}
			lb, _ := l.(bool)
			rb, _ := r.(bool)
			if e.Name == "&&" {
				return lb && rb, nil
			}
			return lb || rb, nil
		}
		l, err := e.Args[0].Eval(env)
		if err != nil {
			return nil, err
		}
		r, err := e.Args[1].Eval(env)
		if err != nil {
			return nil, err
		}
		switch e.Name {
		case "==":
			return same(l, r), nil
		case "!=":
			return !same(l, r), nil
		}
		a, ok1 := num(l)
		b, ok2 := num(r)
		if !ok1 || !ok2 {
			if sa, ok := l.(string); ok && e.Name == "+" {
				if sb, ok := r.(string); ok {
					return sa + sb, nil
				}
			}
			return nil, &EvalErr{}
		}
		switch e.Name {
		case "<":
			return a < b, nil
		case "<=":
			return a <= b, nil
		case ">":
			return a > b, nil
		case ">=":
			return a >= b, nil
		case "+":
			return a + b, nil
		case "-":
			return a - b, nil
		case "*":
			return a * b, nil
		}
	case "fn":
		var vs []interface{}
		for _, a := range e.Args {
			v, err := a.Eval(env)
			if err != nil {
				return nil, err
			}
			vs = append(vs, v)
		}
		switch e.Name {
		case "seq":
			return vs[len(vs)-1], nil
		case "fst":
			return vs[0], nil
		case "list":
			if vs == nil {
				vs = []interface{}{}
			}
			return vs, nil
		case "fail":
			return nil, &EvalErr{Tok: "exprfail:" + fmt.Sprint(vs[0])}
		case "boom":
			return nil, &EvalErr{Tok: "exprboom:" + fmt.Sprint(vs[0])}
		case "probe":
			return Any{}, nil
		case "id":
			return vs[0], nil
		case "has":
			switch t := vs[0].(type) {
			case Contains:
				return strings.Contains(t.Tok, vs[1].(string)), nil
			case string:
				return strings.Contains(t, vs[1].(string)), nil
			}
			return false, nil
		}
	}
	panic("eval " + e.K + " " + e.Name)
}

// Find tells if a sub expression satisfies f
func (e *Expr) Find(f func(*Expr) bool) bool {
	if e == nil {
		return false
	}
	if f(e) {
		return true
	}
	for _, a := range e.Args {
		if a.Find(f) {
			return true
		}
	}
	return false
}

func num(v interface{}) (float64, bool) {
	switch t := v.(type) {
	case float64:
		return t, true
	case float32:
		return float64(t), true
	case int:
		return float64(t), true
	case int8:
		return float64(t), true
	case int16:
		return float64(t), true
	case int32:
		return float64(t), true
	case int64:
		return float64(t), true
	case uint64:
		return float64(t), true
	case uint32:
		return float64(t), true
	case uint:
		return float64(t), true
	case json.Number:
		f, err := t.Float64()
		return f, err == nil
	}
	return 0, false
}

// same compares two model values
func same(a, b interface{}) bool { return match(a, b) }

// match tells if the observed value got is what is expected
func match(exp, got interface{}) bool {
	switch t := exp.(type) {
	case Any:
		return true
	case *Sym:
		if g, ok := got.(*Sym); ok {
			return g == t
		}
		s, ok := got.(string)
		if !ok || s == "" {
			return false
		}
		if !t.Bound {
			t.Bound, t.Val = true, s
			return true
		}
		return t.Val == s
	case Contains:
		s, ok := got.(string)
		return ok && strings.Contains(s, t.Tok)
	case OneOf:
		for _, v := range t.Vals {
			if match(v, got) {
				return true
			}
		}
		return false
	case nil:
		return got == nil
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			rv := reflect.ValueOf(got)
			if rv.Kind() != reflect.Map {
				return false
			}
			g = map[string]interface{}{}
			for _, k := range rv.MapKeys() {
				g[fmt.Sprint(k.Interface())] = rv.MapIndex(k).Interface()
			}
		}
		if len(g) != len(t) {
			return false
		}
		for k, v := range t {
			x, ok := g[k]
			if !ok || !match(v, x) {
				return false
			}
		}
		return true
	case []interface{}:
		rv := reflect.ValueOf(got)
		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
			return false
		}
		if rv.Len() != len(t) {
			return false
		}
		for i, v := range t {
			if !match(v, rv.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	if a, ok := num(exp); ok {
		b, ok := num(got)
		return ok && a == b
	}
	return reflect.DeepEqual(exp, got)
}

func show(v interface{}) string {
	switch t := v.(type) {
	case Any:
		return "<any>"
	case *Sym:
		return "<id " + t.Val + ">"
	case Contains:
		return "<..." + t.Tok + "...>"
	case OneOf:
		var s []string
		for _, x := range t.Vals {
			s = append(s, show(x))
		}
		return "<" + strings.Join(s, "|") + ">"
	case map[string]interface{}:
		var ks []string
		for _, k := range sortedKeys(t) {
			ks = append(ks, k+":"+show(t[k]))
		}
		return "{" + strings.Join(ks, " ") + "}"
	case []interface{}:
		var s []string
		for _, x := range t {
			s = append(s, show(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case string:
		return strconv.Quote(t)
	}
	return fmt.Sprintf("%v(%T)", v, v)
}
