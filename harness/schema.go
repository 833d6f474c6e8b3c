package main

import (
	"encoding/json"
	"errors"
	"reflect"

	"github.com/project-flogo/core/data/schema"
)

// A small schema implementation: {"type":"object","required":[...],"not":value}.

type vSchema struct {
	def *schema.Def
	s   struct {
		Title    string      `json:"title"`
		Required []string    `json:"required"`
		Not      interface{} `json:"not"`
		NotTypes []string    `json:"nottypes"`
	}
}

func (s *vSchema) Type() string  { return s.def.Type }
func (s *vSchema) Value() string { return s.def.Value }
func (s *vSchema) Validate(v interface{}) error {
	if isOneOf(typeName(v), s.s.NotTypes) {
		return schema.NewValidationError("validation failed "+s.s.Title, []error{errors.New("type is not allowed")})
	}
	if s.s.Not != nil && normJSON(v) == normJSON(s.s.Not) {
		return schema.NewValidationError("validation failed "+s.s.Title, []error{errors.New("not allowed")})
	}
	for _, k := range s.s.Required {
		m, ok := v.(map[string]interface{})
		if ok {
			_, ok = m[k]
		}
		if !ok {
			return schema.NewValidationError("validation failed "+s.s.Title, []error{errors.New(k + " is required")})
		}
	}
	return nil
}

type vSchemaFactory struct{}

func (vSchemaFactory) New(def *schema.Def) (schema.Schema, error) {
	s := &vSchema{def: def}
	if err := json.Unmarshal([]byte(def.Value), &s.s); err != nil {
		return nil, err
	}
	return s, nil
}

func init() { _ = schema.RegisterFactory("json", vSchemaFactory{}) }

// Sch is the schema of an input or output: values of some types are not allowed
type Sch struct {
	Not  []string `json:"not,omitempty"`
	Tok  string   `json:"tok,omitempty"`
	Ref  string   `json:"ref,omitempty"` // a registered schema
	None bool     `json:"none,omitempty"`
}

var schemaTypes = []string{"string", "number", "boolean", "object", "array", "null"}

const (
	schemaOff      = iota // not enabled
	schemaValidate        // enabled
	schemaSilent          // enabled, validation is not
)

var schemaMode = schemaOff

// schemaInit enables schemas and registers those that flows refer to
func schemaInit(mode int) {
	schemaMode = mode
	switch mode {
	case schemaValidate:
		schema.Enable()
	case schemaSilent:
		schema.Enable()
		schema.DisableValidation()
	}
	for _, t := range schemaTypes {
		s := regSchema(t)
		if _, err := schema.Register(s.Ref, &schema.Def{Type: "json", Value: s.value()}); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

func regSchema(t string) *Sch { return &Sch{Not: []string{t}, Tok: "SCHREG;", Ref: "vs_" + t} }

func (s *Sch) value() string {
	b, _ := json.Marshal(map[string]interface{}{"title": s.Tok, "nottypes": s.Not})
	return string(b)
}

func (s *Sch) doc() interface{} {
	switch {
	case s.None:
		return nil
	case s.Ref != "":
		return "schema://" + s.Ref
	}
	return map[string]interface{}{"type": "json", "value": s.value()}
}

// same: the schema that an activity sees is this one
func (s *Sch) same(g schema.Schema) bool {
	if s == nil || s.None {
		return g == nil
	}
	if g == nil {
		return false
	}
	if schemaMode == schemaOff {
		return g.Value() == "" && g.Type() == ""
	}
	return g.Value() == s.value() && g.Type() == "json"
}

func (t *Task) schemas() map[string]interface{} {
	r := map[string]interface{}{}
	for k, m := range map[string]map[string]*Sch{"input": t.InSch, "output": t.OutSch} {
		if m != nil {
			d := map[string]interface{}{}
			for n, s := range m {
				d[n] = s.doc()
			}
			r[k] = d
		}
	}
	if len(r) == 0 {
		return nil
	}
	return r
}

// violates: the schema that the values do not comply with
func (t *Task) violates(l map[string]*Sch, vs map[string]interface{}) (toks []string) {
	if schemaMode != schemaValidate || t.Bypass {
		return nil
	}
	for _, n := range sortedKeys(l) {
		v, ok := vs[n]
		if s := l[n]; ok && !s.None && isOneOf(typeName(v), s.Not) {
			toks = append(toks, s.Tok)
		}
	}
	return
}

func isOneOf(x string, l []string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func typeName(v interface{}) string {
	switch v.(type) {
	case nil:
		return "null"
	case string, *Sym, Contains, OneOf:
		return "string"
	case bool:
		return "boolean"
	}
	switch reflect.ValueOf(v).Kind() {
	case reflect.Map:
		return "object"
	case reflect.Slice, reflect.Array:
		return "array"
	}
	return "number"
}

// badData: the error of an execution whose inputs (or outputs) violate a schema
func (ti *TI) badData(l map[string]*Sch, vs map[string]interface{}) *ErrVal {
	toks := ti.t.violates(l, vs)
	if len(toks) == 0 {
		return nil
	}
	ti.c.m.feat["schema-violated"]++
	tok := toks[0]
	for _, x := range toks {
		if x != tok {
			tok = "validation failed" // any of them
		}
	}
	return ti.c.newErr(ti.t, tok)
}
