package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"verif/harness/vleg"
	"verif/harness/vone"
)

// The generated programs.

type Param struct {
	Name  string      `json:"name"`
	Type  string      `json:"type"`
	Value interface{} `json:"value,omitempty"` // default
}

// dflt is the value of a parameter without a value
func (p *Param) dflt() interface{} {
	if p.Value != nil {
		return p.Value
	}
	switch p.Type {
	case "integer":
		return 0
	case "string":
		return ""
	case "boolean":
		return false
	}
	return nil
}

type Beh struct {
	Kind  string                 `json:"kind"` // ok retriable err plain panic nilpanic
	Tok   string                 `json:"tok,omitempty"`
	Code  string                 `json:"code,omitempty"`
	Data  interface{}            `json:"data,omitempty"`
	Ret   map[string]interface{} `json:"ret,omitempty"`   // explicit return
	Reply map[string]interface{} `json:"reply,omitempty"` // explicit reply
	RetEr string                 `json:"retEr,omitempty"` // the error of the explicit return
	Set   map[string]interface{} `json:"set,omitempty"`   // flow outputs assigned
	Junk  string                 `json:"junk,omitempty"`  // output that is set before the failure
}

type OutSpec struct {
	Name string      `json:"name"`
	Kind string      `json:"kind"` // tok num lit echo typed
	V    interface{} `json:"v,omitempty"`
	When int         `json:"when,omitempty"` // in the first (1), the later (2) or every other (3) execution only
}

func (o *OutSpec) set(n int) bool {
	switch o.When {
	case 1:
		return n == 0
	case 2:
		return n > 0
	case 3:
		return n%2 == 1
	}
	return true
}

// typedOuts are outputs of Go types other than those of JSON
var typedOuts = map[string]interface{}{
	"strings": []string{"s0", "s1"}, "ints": []int{3, 1}, "floats": []float64{1.5}, "array": [2]string{"x", "y"},
	"objs": []map[string]interface{}{{"x": 1, "y": "a"}, {"x": 2, "y": "b"}}, "none": []string{}, "bytes": []int64{7, 8, 9},
}

// typed gives the value that the activity sets for an output of the model
func (t *Task) typed(name string, v interface{}) interface{} {
	for i := range t.Outs {
		if o := &t.Outs[i]; o.Name == name && o.Kind == "typed" {
			return typedOuts[o.V.(string)]
		}
	}
	return v
}

// plain converts a value to the types of JSON
func plain(v interface{}) interface{} {
	switch t := v.(type) {
	case nil, string, bool:
		return v
	case map[string]interface{}:
		r := make(map[string]interface{}, len(t))
		for k, x := range t {
			r[k] = plain(x)
		}
		return r
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
		r := make([]interface{}, rv.Len())
		for i := range r {
			r[i] = plain(rv.Index(i).Interface())
		}
		return r
	}
	return v
}

type Mapping struct {
	Name string           `json:"name"`
	E    *Expr            `json:"e,omitempty"`
	Obj  map[string]*Expr `json:"obj,omitempty"`  // object mapping
	Lit  interface{}      `json:"lit,omitempty"`  // literal as in the document
	Want interface{}      `json:"want,omitempty"` // its value for the activity
}

// OutMap assigns a flow attribute when an execution of the task has succeeded;
// flows have no such mappings, they come from patches only
type OutMap struct {
	Name string      `json:"name"`
	Ref  string      `json:"ref,omitempty"` // output of the task, none: literal
	Lit  interface{} `json:"lit,omitempty"`
}

func (o *OutMap) doc() interface{} {
	if o.Ref != "" {
		return "=$." + o.Ref
	}
	return o.Lit
}

type Loop struct {
	Kind  string      `json:"kind"` // iter dowhile
	On    *Expr       `json:"on,omitempty"`
	OnLit interface{} `json:"onlit,omitempty"`
	Cond  *Expr       `json:"cond,omitempty"`
	Acc   bool        `json:"acc,omitempty"`
	Form  int         `json:"form,omitempty"`
	NoEq  bool        `json:"noeq,omitempty"`
	Delay int         `json:"delay,omitempty"`
	// MayBeEmpty tells the generator that there may be no execution
	MayBeEmpty bool `json:"mbe,omitempty"`
	Object     bool `json:"object,omitempty"` // iterates over an object
	// fields that every value has
	Fields []string `json:"fields,omitempty"`
}

type Retry struct {
	Count    int   `json:"count"`
	CountE   *Expr `json:"countE,omitempty"`
	Interval int   `json:"interval,omitempty"`
	IntervE  *Expr `json:"intervE,omitempty"`
}

type Task struct {
	ID        string                 `json:"id"`
	Name      string                 `json:"name,omitempty"`
	Sub       int                    `json:"sub,omitempty"` // 1+index of the flow that is called, 0: activity
	Detached  bool                   `json:"detached,omitempty"`
	Async     bool                   `json:"async,omitempty"`  // the activity that calls the flow has the script
	BadURI    bool                   `json:"baduri,omitempty"` // the called flow does not exist
	Maps      []*Mapping             `json:"maps,omitempty"`
	OMaps     []*OutMap              `json:"omaps,omitempty"`
	Script    []Beh                  `json:"script,omitempty"`
	FirstOnly bool                   `json:"firstonly,omitempty"` // script applies to the first run of the flow by its caller only
	Outs      []OutSpec              `json:"outs,omitempty"`
	Loop      *Loop                  `json:"loop,omitempty"`
	Retry     *Retry                 `json:"retry,omitempty"`
	SetFail   *Expr                  `json:"setfail,omitempty"` // failing setting
	SetOK     *Expr                  `json:"setok,omitempty"`   // working setting
	Cfg       map[string]interface{} `json:"cfg,omitempty"`     // activity settings
	Fixed     bool                   `json:"fixed,omitempty"`   // cannot be reconfigured
	Basic     string                 `json:"basic,omitempty"`   // explicit task type of a plain task
	InSch     map[string]*Sch        `json:"insch,omitempty"`   // schemas of inputs
	OutSch    map[string]*Sch        `json:"outsch,omitempty"`  // schemas of outputs
	Bypass    bool                   `json:"bypass,omitempty"`  // the activity wants no validation
	Shared    bool                   `json:"shared,omitempty"`  // one activity of all tasks
	Legacy    bool                   `json:"legacy,omitempty"`  // an activity of the old kind
	LegOut    map[string]interface{} `json:"legout,omitempty"`  // and its configured outputs

	// generator facts
	noThrow bool
}

type Link struct {
	From  string `json:"from"`
	To    string `json:"to"`
	Type  string `json:"type"` // dep expr other label error
	Cond  *Expr  `json:"cond,omitempty"`
	Label string `json:"label,omitempty"`
	Spell int    `json:"spell,omitempty"`
}

type Graph struct {
	Tasks []*Task `json:"tasks"`
	Links []*Link `json:"links,omitempty"`
}

type Flow struct {
	Name  string   `json:"name"`
	ID    string   `json:"id,omitempty"` // resource id
	In    []*Param `json:"in,omitempty"`
	Out   []*Param `json:"out,omitempty"`
	G     *Graph   `json:"g"`
	EH    *Graph   `json:"eh,omitempty"`
	NoMD  bool     `json:"nomd,omitempty"`
	Model string   `json:"model,omitempty"`
	rec   string   // the parameter that limits how often the flow calls itself
}

type Case struct {
	Flows []*Flow                `json:"flows"`
	In    map[string]interface{} `json:"in"`
}

func (g *Graph) task(id string) *Task {
	for _, t := range g.Tasks {
		if t.ID == id {
			return t
		}
	}
	return nil
}

const (
	refAct  = "verif/harness/vact"
	refFix  = "verif/harness/vfix"
	refSub  = "github.com/project-flogo/flow/activity/subflow"
	refPost = "verif/harness/vpost"
	refByp  = "verif/harness/vbyp"
)

func (e *Expr) eq() string { return "=" + e.Text() }

func (m *Mapping) doc() interface{} {
	if m.E != nil {
		return m.E.eq()
	}
	if m.Obj != nil {
		o := map[string]interface{}{}
		for k, e := range m.Obj {
			o[k] = e.eq()
		}
		return map[string]interface{}{"mapping": o}
	}
	return m.Lit
}

func probeExpr(kind, task string, key *Expr) *Expr {
	if key == nil {
		key = Lit("")
	}
	return Fn("probe", Lit(kind), FlowRef("pid"), Lit(task), key)
}

// Doc renders a task; uri gives the flow URI of a called flow
func (t *Task) Doc(uri func(int) string) map[string]interface{} {
	d := map[string]interface{}{"id": t.ID}
	if t.Name != "" {
		d["name"] = t.Name
	}
	settings := map[string]interface{}{}
	if l := t.Loop; l != nil {
		eq := func(e *Expr) string {
			if l.NoEq {
				return e.Text()
			}
			return e.eq()
		}
		switch l.Kind {
		case "iter":
			d["type"] = "iterator"
			var on interface{} = l.OnLit
			if l.On != nil {
				on = eq(l.On)
			}
			switch l.Form {
			case 0:
				settings["loopConfig"] = map[string]interface{}{"iterateOn": on, "accumulate": l.Acc, "delay": l.Delay}
			case 1:
				settings["loopConfig"] = map[string]interface{}{"iterate": on, "accumulate": l.Acc, "delay": l.Delay}
			case 2:
				settings["iterate"] = on
				settings["accumulate"] = l.Acc
			case 3:
				settings["iterateOn"] = on
				settings["accumulate"] = l.Acc
			}
		case "dowhile":
			d["type"] = "doWhile"
			switch l.Form {
			case 0:
				settings["loopConfig"] = map[string]interface{}{"condition": eq(l.Cond), "accumulate": l.Acc, "delay": l.Delay}
			case 1:
				settings["doWhile"] = map[string]interface{}{"condition": eq(l.Cond), "delay": l.Delay}
				settings["accumulate"] = l.Acc
			case 2:
				settings["condition"] = l.Cond.Text()
				settings["accumulate"] = l.Acc
			}
		}
		if l.Delay > 0 && settings["loopConfig"] == nil && settings["doWhile"] == nil {
			settings["delay"] = l.Delay
		}
	} else if t.Basic != "" {
		d["type"] = t.Basic
	}
	if r := t.Retry; r != nil {
		rc := map[string]interface{}{"interval": r.Interval}
		if r.IntervE != nil {
			rc["interval"] = r.IntervE.eq()
		}
		if r.CountE != nil {
			rc["count"] = r.CountE.eq()
		} else {
			rc["count"] = r.Count
		}
		settings["retryOnError"] = rc
	}
	if t.SetFail != nil {
		settings["xbad"] = t.SetFail.eq()
	}
	if t.SetOK != nil {
		settings["xok"] = t.SetOK.eq()
	}
	if len(settings) > 0 {
		d["settings"] = settings
	}
	in := map[string]interface{}{}
	for _, m := range t.Maps {
		in[m.Name] = m.doc()
	}
	act := map[string]interface{}{"input": in}
	if t.Sub > 0 {
		act["ref"] = refSub
		if t.Async {
			act["ref"] = refPost
		}
		s := map[string]interface{}{"flowURI": uri(t.Sub - 1)}
		if t.BadURI {
			s["flowURI"] = "res://flow:nosuchflow"
		}
		if t.Detached {
			s["detached"] = true
		}
		act["settings"] = s
	} else {
		act["ref"] = refAct
		if t.Fixed {
			act["ref"] = refFix
		}
		if t.Bypass {
			act["ref"] = refByp
		}
		if t.Shared {
			act["ref"] = vone.Ref
		}
		if t.Legacy {
			act["ref"] = vleg.Ref
			if t.LegOut != nil {
				act["output"] = t.LegOut
			}
		}
		if t.Cfg != nil {
			act["settings"] = t.Cfg
		}
	}
	if sch := t.schemas(); sch != nil {
		act["schemas"] = sch
	}
	d["activity"] = act
	return d
}

var linkSpell = map[string][]string{
	"dep":   {"dependency", "default", "0", ""},
	"expr":  {"expression", "1"},
	"label": {"label", "2"},
	"error": {"error", "3"},
	"other": {"exprOtherwise", "4"},
}

func (l *Link) Doc() map[string]interface{} {
	sp := linkSpell[l.Type]
	d := map[string]interface{}{"from": l.From, "to": l.To}
	if s := sp[l.Spell%len(sp)]; s != "" {
		d["type"] = s
	}
	if l.Cond != nil {
		d["value"] = l.Cond.Text()
	}
	if l.Label != "" {
		d["label"] = l.Label
	}
	return d
}

func (g *Graph) Doc(d map[string]interface{}, uri func(int) string) {
	ts := []interface{}{}
	for _, t := range g.Tasks {
		ts = append(ts, t.Doc(uri))
	}
	d["tasks"] = ts
	if len(g.Links) > 0 {
		ls := []interface{}{}
		for _, l := range g.Links {
			ls = append(ls, l.Doc())
		}
		d["links"] = ls
	}
}

// Doc renders the flow as the document that is loaded
func (f *Flow) Doc(uri func(int) string) map[string]interface{} {
	d := map[string]interface{}{"name": f.Name}
	if f.Model != "" {
		d["model"] = f.Model
	}
	ps := func(l []*Param) []interface{} {
		r := []interface{}{}
		for _, p := range l {
			m := map[string]interface{}{"name": p.Name, "type": p.Type}
			if p.Value != nil {
				m["value"] = p.Value
			}
			r = append(r, m)
		}
		return r
	}
	md := map[string]interface{}{}
	md["input"] = append(ps(f.In), map[string]interface{}{"name": "pid", "type": "string"})
	if len(f.Out) > 0 {
		md["output"] = ps(f.Out)
	}
	d["metadata"] = md
	f.G.Doc(d, uri)
	if f.EH != nil {
		eh := map[string]interface{}{}
		f.EH.Doc(eh, uri)
		d["errorHandler"] = eh
	}
	return d
}

func (f *Flow) JSON(uri func(int) string) []byte {
	b, err := json.Marshal(f.Doc(uri))
	if err != nil {
		panic(fmt.Sprint("harness: ", err))
	}
	return b
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
