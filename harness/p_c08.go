package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	appresolve "github.com/project-flogo/core/app/resolve"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/resolve"
	"github.com/project-flogo/core/data/schema"
	"github.com/project-flogo/core/support"
	"github.com/project-flogo/flow/definition"
	"verif/harness/vact"
	"verif/harness/vret"
)

// C08: loading flow definitions

type J = map[string]interface{}

// what a task of the document denotes
type wTask struct {
	ID, Type, Name string
	Ref, ActType   string
	Settings       J // resolved activity settings
	In             J // mapped inputs on the fixed scope (nil: mapper absent or empty)
	Out            J
	SetIn          J // task settings on the fixed scope
	Loop           *wLoop
	Retry          *wRetry
	Schema         string
	OutSchema      bool
}
type wLoop struct {
	On        interface{} // literal, or value of the expression
	OnExpr    bool
	Cond      interface{} // value of the condition on the fixed scope, nil: none
	Cond2     interface{} // on the other scope
	Acc       bool
	Delay     int
	DoWhile   bool
	HasOn     bool
	CondFound bool
}
type wRetry struct{ Count, Interval int }
type wLink struct {
	From, To string
	Type     int
	Value    string
	Label    string
	Expr     [2]interface{} // on the two scopes
}
type wDef struct {
	Name, Model string
	Explicit    bool
	In, Out     map[string][2]interface{} // name -> type, value
	HasMD       bool
	Tasks       []*wTask
	Links       []*wLink
	EH          bool
	EHTasks     []*wTask
	EHLinks     []*wLink
}

var (
	c08Vals  = [2]J{{"a": 3, "b": "x", "f": true, "l": []interface{}{1, 2}, "o": J{"k": "v"}, "_A.T.val": 7}, {"a": 5, "b": "y", "f": false, "l": []interface{}{}, "o": J{"k": "w"}, "_A.T.val": 1}}
	c08Scope = [2]data.Scope{data.NewSimpleScope(c08Vals[0], nil), data.NewSimpleScope(c08Vals[1], nil)}
)

type docGen struct {
	s   *Src
	seq int
	// paths of things that must make loading fail when changed
	bad   bool
	lbad  bool // the defect is at a link or a duplicate task
	skip  int  // tasks that stay intact
	what  string
	exprs int
}

// an expression with its value on both scopes
type exprV struct {
	text string
	v    [2]interface{}
}

func (g *docGen) cond() exprV {
	s := g.s
	g.exprs++
	n := s.N(8)
	a := func(k int) int { return c08Vals[k]["a"].(int) }
	switch s.N(8) {
	case 0:
		return exprV{fmt.Sprintf("$flow.a == %d", n), [2]interface{}{a(0) == n, a(1) == n}}
	case 1:
		return exprV{fmt.Sprintf("$flow.a > %d", n), [2]interface{}{a(0) > n, a(1) > n}}
	case 2:
		return exprV{"$flow.f", [2]interface{}{true, false}}
	case 3:
		return exprV{"!$flow.f", [2]interface{}{false, true}}
	case 4:
		return exprV{"$flow.b == \"x\" && $flow.a >= 3", [2]interface{}{true, false}}
	case 5:
		return exprV{fmt.Sprintf("$activity[T].val < %d", n), [2]interface{}{7 < n, 1 < n}}
	case 6:
		return exprV{"$.o.k == \"w\"", [2]interface{}{false, true}}
	}
	return exprV{fmt.Sprintf("$flow.a != %d || $flow.f", n), [2]interface{}{true, a(1) != n}}
}

func (g *docGen) value() exprV {
	s := g.s
	g.exprs++
	both := func(k string) [2]interface{} { return [2]interface{}{c08Vals[0][k], c08Vals[1][k]} }
	switch s.N(7) {
	case 0:
		return exprV{"$flow.a", both("a")}
	case 1:
		return exprV{"$.b", both("b")}
	case 2:
		return exprV{"$activity[T].val", both("_A.T.val")}
	case 3:
		return exprV{"$flow.o", both("o")}
	case 4:
		return exprV{"$flow.a + 1", [2]interface{}{4, 6}}
	case 5:
		return exprV{"$flow.o.k", [2]interface{}{"v", "w"}}
	}
	n := s.N(50)
	return exprV{strconv.Itoa(n), [2]interface{}{n, n}}
}

var badExprs = []string{"$flow.a ==", "(((", "$flow.a === 1", "&& 1", "$nosuch.x", "vf.nosuch(1)", "1 +", "\"abc", "$flow.a $flow.b", ")", "if("}

func (g *docGen) badExpr() string { return badExprs[g.s.N(len(badExprs))] }

var oddIDs = []string{"", "a b", "α✓", "x.y", "x[0]", "\"q\"", "1", "-", "Task_1", "task_1", "$flow", "=x", "\n", "a/b", "null", "~"}

func (g *docGen) id() string {
	g.seq++
	s := g.s
	if s.P(15) {
		return oddIDs[s.N(len(oddIDs))] + "." + strconv.Itoa(g.seq)
	}
	return "t" + strconv.Itoa(g.seq)
}

func (g *docGen) task(w *wDef) (J, *wTask) {
	s := g.s
	if g.bad && (g.lbad || g.skip > 0) {
		g.skip--
		g.bad = false
		defer func() { g.bad = true }()
	}
	t := &wTask{ID: g.id()}
	d := J{"id": t.ID}
	if s.P(60) {
		t.Name = "n " + t.ID
		d["name"] = t.Name
	}
	set := J{}
	kind := s.Pick(5, 3, 3, 1)
	switch kind {
	case 1, 2, 3:
		l := &wLoop{}
		cfg := J{}
		where := s.N(3) // loopConfig, doWhile, top level
		hasAcc := s.P(60)
		l.Acc = hasAcc && s.P(70)
		accv := []interface{}{l.Acc}
		if l.Acc {
			accv = append(accv, "true", 1)
		} else {
			accv = append(accv, "false", 0)
		}
		acc := accv[s.N(len(accv))]
		if s.P(50) {
			l.Delay = s.N(2000)
			cfg["delay"] = []interface{}{l.Delay, strconv.Itoa(l.Delay), float64(l.Delay)}[s.N(3)]
			if s.P(15) {
				_ = os.Setenv("C08_DELAY", "77")
				cfg["delay"], l.Delay = "=$env[C08_DELAY]", 77
			}
		}
		if kind == 3 { // task type without loop settings
			t.Type = s.Str("", "basic")
		} else if kind == 1 {
			t.Type = "iterator"
		} else {
			t.Type, l.DoWhile = "doWhile", true
		}
		if kind == 1 || kind == 3 {
			key := s.Str("iterateOn", "iterateOn", "iterate")
			l.HasOn = true
			switch s.N(4) {
			case 0:
				l.On = s.N(100)
				cfg[key] = l.On
			case 1:
				l.On = []interface{}{1, "two", nil}
				cfg[key] = l.On
			case 2:
				l.On = J{"k1": 1, "k2": "x"}
				cfg[key] = l.On
			default:
				e := g.value()
				l.On, l.OnExpr = e.v[0], true
				cfg[key] = s.Str("=", "") + e.text
			}
		}
		if kind == 2 || kind == 3 && s.P(30) {
			e := g.cond()
			l.CondFound = true
			l.Cond, l.Cond2 = e.v[0], e.v[1]
			cfg["condition"] = s.Str("=", "") + e.text
		}
		switch where {
		case 0:
			if hasAcc {
				cfg["accumulate"] = acc
			}
			set["loopConfig"] = cfg
		case 1:
			set["doWhile"] = cfg
			if hasAcc {
				set["accumulate"] = acc
			}
		default:
			if _, ok := cfg["condition"]; ok && cfg["condition"].(string)[0] == '=' {
				// task settings that are expressions are evaluated as settings too
				cfg["condition"] = cfg["condition"].(string)[1:]
			}
			for k, v := range cfg {
				set[k] = v
			}
			if hasAcc {
				set["accumulate"] = acc
			}
		}
		if t.Type != "" {
			d["type"] = t.Type
		}
		t.Loop = l
		if kind == 3 {
			l.DoWhile = false
		}
		if g.bad && g.what == "" {
			switch s.N(5) {
			case 0:
				g.what = "condition of the loop"
				cfg["condition"] = s.Str("=", "") + g.badExpr()
			case 1:
				g.what = "iterateOn"
				cfg["iterateOn"] = s.Str("=", "") + g.badExpr()
			case 2:
				g.what = "delay"
				cfg["delay"] = "soon"
			}
			if g.what != "" {
				for k, v := range cfg {
					if where == 2 {
						set[k] = v
					}
				}
			}
		}
	default:
		if s.P(30) {
			t.Type = "basic"
			d["type"] = t.Type
		} else if s.P(30) {
			d["type"] = ""
		}
	}
	if s.P(25) {
		r := &wRetry{}
		c := J{}
		if s.P(85) {
			r.Count = s.N(9)
			c["count"] = []interface{}{r.Count, strconv.Itoa(r.Count), "=" + strconv.Itoa(r.Count)}[s.N(3)]
			if s.P(20) {
				r.Count = 3
				c["count"] = "=$flow.a"
			}
		}
		if s.P(70) {
			r.Interval = s.N(900)
			c["interval"] = []interface{}{r.Interval, strconv.Itoa(r.Interval)}[s.N(2)]
			if s.P(20) {
				r.Interval = 7
				c["interval"] = "=$activity[T].val"
			}
		}
		if g.bad && g.what == "" && s.P(60) {
			g.what = "retry setting"
			c[s.Str("count", "interval")] = []interface{}{"many", "=" + g.badExpr(), J{}, []interface{}{1}}[s.N(4)]
		}
		set["retryOnError"] = c
		t.Retry = r
	}
	if s.P(20) {
		e := g.value()
		set["custom"] = "=" + e.text
	}
	if g.bad && g.what == "" && s.P(10) {
		g.what = "expression of a task setting"
		set["custom"] = "=" + g.badExpr()
	}
	if len(set) > 0 {
		d["settings"] = set
	}
	// the activity
	act := J{}
	t.Ref = vact.Ref
	if s.P(12) {
		t.Ref = vret.Ref
		w.Explicit = true
	}
	t.ActType = strings.ReplaceAll(t.Ref, "/", ".")
	alias := t.Ref[strings.LastIndexByte(t.Ref, '/')+1:]
	switch s.N(6) {
	case 0:
		act["ref"] = "#" + alias
	case 1:
		act["type"] = alias
		t.ActType = alias
	case 2:
		act["ref"], act["type"] = t.Ref, "custom"
		t.ActType = "custom"
	default:
		act["ref"] = t.Ref
	}
	if t.Ref == vact.Ref && s.P(50) {
		as := J{}
		t.Settings = J{}
		for i, n := 0, 1+s.N(3); i < n; i++ {
			switch s.N(5) {
			case 0:
				v := s.N(100)
				as["num"] = []interface{}{v, strconv.Itoa(v), float64(v)}[s.N(3)]
				t.Settings["num"] = v
			case 1:
				v := s.N(100)
				as["str"] = []interface{}{v, strconv.Itoa(v)}[s.N(2)]
				t.Settings["str"] = strconv.Itoa(v)
			case 2:
				as["obj"] = []interface{}{J{"x": "y"}, `{"x":"y"}`}[s.N(2)]
				t.Settings["obj"] = J{"x": "y"}
			case 3:
				as["cfg"] = []interface{}{1.5, "text", nil, []interface{}{"e"}, "= 1 + 2"}[s.N(5)]
				t.Settings["cfg"] = as["cfg"]
				if as["cfg"] == "= 1 + 2" {
					t.Settings["cfg"] = 3
				}
			default:
				as["free"] = "v" + strconv.Itoa(s.N(9))
				t.Settings["free"] = as["free"]
			}
		}
		if g.bad && g.what == "" && s.P(60) {
			g.what = "setting of the activity"
			switch s.N(4) {
			case 0:
				as["num"] = "twelve"
			case 1:
				as["obj"] = "no object"
			case 2:
				as["cfg"] = "=" + g.badExpr()
			case 3:
				as["str"] = "=" + g.badExpr()
			}
		}
		act["settings"] = as
	}
	if s.P(70) {
		in := J{}
		t.In = J{}
		put := func(k string, doc, want interface{}) { in[k], t.In[k] = doc, want }
		for i, n := 0, 1+s.N(4); i < n; i++ {
			switch s.N(9) {
			case 0:
				e := g.value()
				put(s.Str("a", "b"), "="+e.text, e.v[0])
			case 1:
				v := s.N(1000)
				k := s.Str("i", "s", "n")
				if t.Ref != vact.Ref {
					k = "n"
				}
				var want interface{} = v
				if k == "s" {
					want = strconv.Itoa(v)
				}
				put(k, []interface{}{v, strconv.Itoa(v)}[s.N(2)], want)
			case 2:
				if t.Ref == vact.Ref {
					put("q", []interface{}{true, "true"}[s.N(2)], true)
				}
			case 3:
				if t.Ref == vact.Ref {
					put("o", []interface{}{J{"m": "n"}, `{"m":"n"}`}[s.N(2)], J{"m": "n"})
				}
			case 4:
				e := g.value()
				put("c", J{"mapping": J{"p": "=" + e.text, "q": "lit"}}, J{"p": e.v[0], "q": "lit"})
			case 5:
				put("k", []interface{}{"text", 4, nil, 2.5, []interface{}{1, "z"}, J{"u": 1}}[s.N(6)], nil)
				t.In["k"] = in["k"]
				if in["k"] == nil {
					delete(t.In, "k")
				}
			case 6:
				put("extra", "more", "more")
			default:
				e := g.cond()
				put("d", "="+e.text, e.v[0])
			}
		}
		if g.bad && g.what == "" && s.P(50) {
			g.what = "input"
			switch s.N(4) {
			case 0:
				in["a"] = "=" + g.badExpr()
			case 1:
				in["c"] = J{"mapping": J{"p": "=" + g.badExpr()}}
			case 2:
				in["n"] = "no number"
			case 3:
				in["n"] = []interface{}{1, 2}
			}
		}
		act["input"] = in
		if len(t.In) == 0 {
			t.In = nil
		}
	}
	if t.Ref == vact.Ref && s.P(25) {
		act["output"] = J{"i": "5", "val": "=$flow.a"}
		t.Out = J{"i": 5, "val": "=$flow.a"}
		if g.bad && g.what == "" && s.P(60) {
			g.what = "output"
			act["output"].(J)["i"] = "five"
		}
	}
	if s.P(15) {
		t.Schema = `{"type":"object","title":"` + strconv.Itoa(s.N(9)) + `"}`
		sc := J{"type": "json", "value": t.Schema}
		k := s.Str("input", "output")
		act["schemas"] = J{k: J{"o": sc}}
		if k == "output" {
			t.OutSchema = true
		}
		if g.bad && g.what == "" && s.P(60) {
			g.what = "schema"
			switch s.N(5) {
			case 0:
				sc["type"] = "xml"
			case 1:
				sc["value"] = "{"
			case 2:
				delete(sc, "type")
			case 3:
				sc["value"] = 5
			case 4:
				act["schemas"].(J)[k].(J)["o"] = "object"
			}
		}
	}
	d["activity"] = act
	if g.bad && g.what == "" {
		switch s.N(9) {
		case 0:
			g.what = "task type"
			d["type"] = s.Str("Basic", "loop", "dowhile", "iterators", " ", "0")
		case 1:
			g.what = "ref"
			act["ref"] = s.Str("verif/harness/none", "#none", "#", "vact", "verif/harness/vact ", "/")
		case 2:
			g.what = "empty ref"
			delete(act, "ref")
			delete(act, "type")
		case 3:
			g.what = "missing activity"
			if s.P(50) {
				delete(d, "activity")
			} else {
				d["activity"] = nil
			}
		}
	}
	return d, t
}

func (g *docGen) graph(d J, w *wDef, max int) (ts []*wTask, ls []*wLink) {
	s := g.s
	var td, ld []interface{}
	n := 1 + s.N(max)
	for i := 0; i < n; i++ {
		t, x := g.task(w)
		td = append(td, t)
		ts = append(ts, x)
	}
	if g.bad && g.lbad && g.what == "" && s.P(25) {
		g.what = "duplicate task"
		t, _ := g.task(w)
		t["id"] = ts[s.N(n)].ID
		at := s.N(len(td) + 1)
		td = append(td[:at:at], append([]interface{}{t}, td[at:]...)...)
	}
	for i, m := 0, s.N(2*n); i < m; i++ {
		l := &wLink{From: ts[s.N(n)].ID, To: ts[s.N(n)].ID}
		x := J{"from": l.From, "to": l.To}
		k := s.Pick(4, 3, 2, 2, 2)
		l.Type = k
		if sp := [][]string{{"dependency", "default", "0", ""}, {"expression", "1"}, {"label", "2"}, {"error", "3"}, {"exprOtherwise", "4"}}[k]; true {
			if v := sp[s.N(len(sp))]; v != "" || s.P(30) {
				x["type"] = v
			}
		}
		switch {
		case k == 1:
			e := g.cond()
			l.Value, l.Expr = e.text, e.v
			x["value"] = l.Value
		case s.P(30):
			l.Value = "v" + strconv.Itoa(s.N(9))
			x["value"] = l.Value
		}
		if s.P(30) {
			l.Label = "lab " + strconv.Itoa(s.N(9))
			x["label"] = l.Label
		}
		if s.P(20) {
			x["name"] = "link"
		}
		if g.bad && g.lbad && g.what == "" && s.P(60) {
			switch s.N(5) {
			case 0:
				g.what = "source of a link"
				x["from"] = l.From + "?"
			case 1:
				g.what = "target of a link"
				x["to"] = l.To + "?"
			case 2:
				g.what = "condition of a link"
				x["type"], x["value"] = s.Str("expression", "1"), g.badExpr()
			case 3:
				g.what = "missing condition of a link"
				x["type"] = s.Str("expression", "1")
				delete(x, "value")
			case 4:
				g.what = "link without " + s.Str("from", "to")
				delete(x, g.what[len("link without "):])
			}
		}
		ls = append(ls, l)
		ld = append(ld, x)
	}
	d["tasks"] = td
	if ld != nil {
		d["links"] = ld
	}
	return
}

func (g *docGen) doc() (J, *wDef) {
	s := g.s
	w := &wDef{}
	d := J{}
	w.Name = "flow" + s.Str("", " 1", "é", ".x")
	d["name"] = w.Name
	if s.P(25) {
		w.Model = s.Str("flogo-simple", "")
		d["model"] = w.Model
	}
	if s.P(15) {
		d["explicitReply"] = true
		w.Explicit = true
	}
	if s.P(70) {
		w.HasMD = true
		md := J{}
		ps := func(key string) map[string][2]interface{} {
			r := map[string][2]interface{}{}
			var l []interface{}
			for i, n := 0, s.N(4); i < n; i++ {
				name := "p" + strconv.Itoa(i)
				ty := s.Str("string", "integer", "boolean", "any", "object", "array", "double")
				x := J{"name": name, "type": ty}
				want := [2]interface{}{ty, nil}
				switch {
				case s.P(50):
				case ty == "string":
					x["value"], want[1] = "dv", "dv"
				case ty == "integer":
					x["value"], want[1] = s.Str("4", "4"), 4
				case ty == "boolean":
					x["value"], want[1] = true, true
				case ty == "any":
					x["value"], want[1] = "anything", "anything"
				case ty == "object":
					x["value"], want[1] = J{"a": "b"}, J{"a": "b"}
				}
				l = append(l, x)
				r[name] = want
			}
			if l != nil {
				md[key] = l
			}
			return r
		}
		w.In, w.Out = ps("input"), ps("output")
		d["metadata"] = md
	}
	ehFirst := g.bad && s.P(25)
	max := 5
	if s.P(5) {
		max = 30
	}
	eh := func() {
		w.EH = true
		e := J{}
		w.EHTasks, w.EHLinks = g.graph(e, w, 3)
		d["errorHandler"] = e
	}
	if ehFirst {
		eh()
	}
	w.Tasks, w.Links = g.graph(d, w, max)
	if !ehFirst && s.P(35) {
		eh()
	}
	return d, w
}

var flowLoader resource.Loader

func loadDoc(doc []byte) (*definition.Definition, error) {
	if flowLoader == nil {
		flowLoader = resource.GetLoader("flow")
	}
	r, err := flowLoader.LoadResource(&resource.Config{ID: "flow:c08", Data: doc})
	if err != nil {
		return nil, err
	}
	if r == nil {
		return nil, fmt.Errorf("harness: no resource and no error")
	}
	d, ok := r.Object().(*definition.Definition)
	if !ok || d == nil {
		panic("LoadResource returned neither a definition nor an error")
	}
	return d, nil
}

// cmp compares values as JSON (numbers by value)
func cmp(what string, got, want interface{}) string {
	if normJSON(got) == normJSON(want) {
		return ""
	}
	return fmt.Sprintf("%s is %s, the document says %s", what, normJSON(got), normJSON(want))
}

func normJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%T %v", v, v)
	}
	return string(b)
}

func checkTask(where string, t *definition.Task, w *wTask, wd *wDef) string {
	p := fmt.Sprintf("%stask %q: ", where, w.ID)
	if t == nil {
		return p + "missing in the definition"
	}
	var e string
	bad := func(what string, got, want interface{}) bool {
		if e = cmp(p+what, got, want); e != "" {
			return true
		}
		return false
	}
	if bad("id", t.ID(), w.ID) || bad("name", t.Name(), w.Name) || bad("type", t.TypeID(), w.Type) {
		return e
	}
	ac := t.ActivityConfig()
	if ac == nil || ac.Activity == nil {
		return p + "has no activity"
	}
	if bad("activity", ac.Ref(), w.Ref) || bad("activity type", ac.Type, w.ActType) || bad("activity name", ac.Name, w.Name) || bad("host name", ac.HostName, wd.Name) {
		return e
	}
	for _, k := range []string{"num", "str", "obj", "cfg", "free"} {
		v, ok := ac.GetSetting(k)
		wv, wok := w.Settings[k]
		if bad("setting "+k+" present", ok, wok) || bad("setting "+k, v, wv) {
			return e
		}
	}
	if va, ok := ac.Activity.(*vact.Activity); ok {
		if bad("settings given to the activity", va.Settings, notNil(w.Settings)) || bad("name given to the activity", va.Name, w.Name) || bad("host given to the activity", va.Host, wd.Name) {
			return e
		}
	}
	if w.In == nil {
		if ac.InputMapper() != nil {
			if m, err := ac.InputMapper().Apply(c08Scope[0]); err != nil || len(m) > 0 {
				return p + fmt.Sprint("has input mappings ", m)
			}
		}
	} else {
		if ac.InputMapper() == nil {
			return p + "has no input mappings"
		}
		m, err := ac.InputMapper().Apply(c08Scope[0])
		if err != nil {
			return p + "input mappings fail: " + err.Error()
		}
		if bad("mapped input", m, w.In) {
			return e
		}
	}
	if ac.OutputMapper() == nil {
		return p + "has no output mapper"
	}
	for _, k := range []string{"i", "val"} {
		if bad("output "+k, ac.GetOutput(k), w.Out[k]) {
			return e
		}
	}
	for k, sc := range map[bool]schema.Schema{false: ac.GetInputSchema("o"), true: ac.GetOutputSchema("o")} {
		want := k == w.OutSchema && w.Schema != ""
		if (sc != nil) != want || want && (sc.Value() != w.Schema || sc.Type() != "json") {
			return p + fmt.Sprintf("has the schema %v (output: %v), the document says %v: %s", sc, k, want, w.Schema)
		}
	}
	l := t.LoopConfig()
	if (l != nil) != (w.Loop != nil) {
		return p + fmt.Sprintf("has loop settings: %v, in the document: %v", l != nil, w.Loop != nil)
	}
	if l != nil {
		if bad("accumulate", l.Accumulate(), w.Loop.Acc) || bad("delay", l.Delay(), w.Loop.Delay) || bad("output on accumulate", l.ApplyOutputOnAccumulate(), w.Loop.DoWhile) {
			return e
		}
		on := l.GetIterateOn()
		if x, ok := on.(interface {
			Eval(data.Scope) (interface{}, error)
		}); ok {
			if !w.Loop.OnExpr {
				return p + "iterateOn is an expression"
			}
			v, err := x.Eval(c08Scope[0])
			if err != nil {
				return p + "iterateOn fails: " + err.Error()
			}
			on = v
		} else if w.Loop.OnExpr {
			return p + "iterateOn is no expression"
		}
		if bad("iterateOn", on, w.Loop.On) {
			return e
		}
		if (l.Condition() != nil) != w.Loop.CondFound {
			return p + fmt.Sprintf("has a loop condition: %v, in the document: %v", l.Condition() != nil, w.Loop.CondFound)
		}
		if l.Condition() != nil {
			for i, wv := range []interface{}{w.Loop.Cond, w.Loop.Cond2} {
				v, err := l.Condition().Eval(c08Scope[i])
				if err != nil {
					return p + "loop condition fails: " + err.Error()
				}
				if bad("value of the loop condition", v, wv) {
					return e
				}
			}
		}
	}
	r := t.RetryOnErrConfig()
	if hasRetry(r) != (w.Retry != nil) {
		return p + fmt.Sprintf("has retry settings: %v, in the document: %v", hasRetry(r), w.Retry != nil)
	}
	if w.Retry != nil {
		c, err := r.Count(c08Scope[0])
		if err != nil || c != w.Retry.Count {
			return p + fmt.Sprintf("retry count is %v (%v), the document says %v", c, err, w.Retry.Count)
		}
		c, err = r.Interval(c08Scope[0])
		if err != nil || c != w.Retry.Interval {
			return p + fmt.Sprintf("retry interval is %v (%v), the document says %v", c, err, w.Retry.Interval)
		}
	}
	return ""
}

func hasRetry(r definition.RetryOnError) bool {
	if r == nil {
		return false
	}
	v := reflect.ValueOf(r)
	return v.Kind() != reflect.Ptr || !v.IsNil()
}

func notNil(j J) J {
	if j == nil {
		return J{}
	}
	return j
}

// checkLinks compares the links of a graph; all[i] is the link with id base+i
func checkLinks(where string, task func(string) *definition.Task, get func(int) *definition.Link, tasks []*wTask, links []*wLink) string {
	into, out := map[string][]int{}, map[string][]int{}
	for i, l := range links {
		out[l.From] = append(out[l.From], i)
		into[l.To] = append(into[l.To], i)
	}
	one := func(l *definition.Link, w *wLink, i int) string {
		p := fmt.Sprintf("%slink %d (%q -> %q): ", where, i, w.From, w.To)
		if l == nil {
			return p + "missing in the definition"
		}
		if l.FromTask() == nil || l.ToTask() == nil {
			return p + "touches a missing task"
		}
		if l.FromTask() != task(w.From) || l.ToTask() != task(w.To) {
			return p + fmt.Sprintf("connects %q and %q", l.FromTask().ID(), l.ToTask().ID())
		}
		if int(l.Type()) != w.Type {
			return p + fmt.Sprintf("type is %d, the document says %d", l.Type(), w.Type)
		}
		if l.Value() != w.Value || l.Label() != w.Label {
			return p + fmt.Sprintf("value and label are %q and %q, the document says %q and %q", l.Value(), l.Label(), w.Value, w.Label)
		}
		if (l.Expr() != nil) != (w.Type == 1) {
			return p + fmt.Sprintf("has a condition: %v", l.Expr() != nil)
		}
		if l.Expr() != nil && w.Expr[0] != nil {
			for k := range c08Scope {
				v, err := l.Expr().Eval(c08Scope[k])
				if err != nil {
					return p + "condition fails: " + err.Error()
				}
				if e := cmp(p+"value of the condition", v, w.Expr[k]); e != "" {
					return e
				}
			}
		}
		return ""
	}
	for _, t := range tasks {
		x := task(t.ID)
		for dir, g := range map[string][]*definition.Link{"outgoing": x.ToLinks(), "incoming": x.FromLinks()} {
			idx := out[t.ID]
			if dir == "incoming" {
				idx = into[t.ID]
			}
			if len(g) != len(idx) {
				return fmt.Sprintf("%stask %q has %d %s links, in the document %d", where, t.ID, len(g), dir, len(idx))
			}
			for k, i := range idx {
				if e := one(g[k], links[i], i); e != "" {
					return e
				}
			}
		}
	}
	if get != nil {
		for i, l := range links {
			if e := one(get(i), l, i); e != "" {
				return e
			}
		}
	}
	return ""
}

func checkDef(d *definition.Definition, w *wDef) string {
	var e string
	bad := func(what string, got, want interface{}) bool { e = cmp(what, got, want); return e != "" }
	if bad("name", d.Name(), w.Name) || bad("model", d.ModelID(), w.Model) || bad("explicit reply", d.ExplicitReply(), w.Explicit) {
		return e
	}
	if w.HasMD != (d.Metadata() != nil) {
		return fmt.Sprintf("has metadata: %v, in the document: %v", d.Metadata() != nil, w.HasMD)
	}
	if w.HasMD {
		for what, x := range map[string]struct {
			w map[string][2]interface{}
			g map[string]data.TypedValue
		}{"input": {w.In, d.Metadata().Input}, "output": {w.Out, d.Metadata().Output}} {
			if len(x.w) != len(x.g) {
				return fmt.Sprintf("has %d %ss, in the document %d", len(x.g), what, len(x.w))
			}
			for n, tv := range x.w {
				g := x.g[n]
				if g == nil {
					return fmt.Sprintf("%s %q is missing", what, n)
				}
				ty := g.Type().String()
				if x := map[string]string{"int": "integer", "bool": "boolean", "float64": "double", "number": "double"}[ty]; x != "" {
					ty = x
				}
				if bad("type of "+what+" "+n, ty, tv[0]) {
					return e
				}
				if tv[1] != nil && bad("value of "+what+" "+n, g.Value(), tv[1]) {
					return e
				}
			}
		}
	}
	if bad("number of tasks", len(d.Tasks()), len(w.Tasks)) || bad("number of links", len(d.Links()), len(w.Links)) {
		return e
	}
	for _, t := range w.Tasks {
		if e = checkTask("", d.GetTask(t.ID), t, w); e != "" {
			return e
		}
	}
	if e = checkLinks("", d.GetTask, d.GetLink, w.Tasks, w.Links); e != "" {
		return e
	}
	eh := d.GetErrorHandler()
	if (eh != nil) != w.EH {
		return fmt.Sprintf("has an error handler: %v, in the document: %v", eh != nil, w.EH)
	}
	if eh != nil {
		if bad("number of tasks of the error handler", len(eh.Tasks()), len(w.EHTasks)) {
			return e
		}
		for _, t := range w.EHTasks {
			if e = checkTask("error handler: ", eh.GetTask(t.ID), t, w); e != "" {
				return e
			}
		}
		if e = checkLinks("error handler: ", eh.GetTask, nil, w.EHTasks, w.EHLinks); e != "" {
			return e
		}
	}
	return ""
}

// ---- documents that are not known to be valid

type rTask struct {
	ID       string                 `json:"id"`
	Type     string                 `json:"type"`
	Name     string                 `json:"name"`
	Settings map[string]interface{} `json:"settings"`
	Activity *struct {
		Ref  string `json:"ref"`
		Type string `json:"type"`
	} `json:"activity"`
}
type rLink struct {
	Type  string `json:"type"`
	To    string `json:"to"`
	From  string `json:"from"`
	Label string `json:"label"`
	Value string `json:"value"`
}
type rDoc struct {
	ExplicitReply bool     `json:"explicitReply"`
	Name          string   `json:"name"`
	Model         string   `json:"model"`
	Tasks         []*rTask `json:"tasks"`
	Links         []*rLink `json:"links"`
	EH            *struct {
		Tasks []*rTask `json:"tasks"`
		Links []*rLink `json:"links"`
	} `json:"errorHandler"`
}

var linkTypes = map[string]int{"": 0, "default": 0, "dependency": 0, "0": 0, "expression": 1, "1": 1, "label": 2, "2": 2, "error": 3, "3": 3, "exprOtherwise": 4, "4": 4}

// checkAccepted: a definition made from any document must be consistent with it
func checkAccepted(d *definition.Definition, doc []byte) string {
	var r *rDoc
	if err := json.Unmarshal(doc, &r); err != nil {
		return "a document that is not a flow was accepted: " + err.Error()
	}
	if r == nil {
		return "an empty document was accepted"
	}
	if e := cmp("name", d.Name(), r.Name); e != "" {
		return e
	}
	if e := cmp("model", d.ModelID(), r.Model); e != "" {
		return e
	}
	if r.Model != "" && r.Model != "flogo-simple" {
		for _, t := range d.Tasks() {
			if t.TypeID() != "" {
				return "accepted with task types of an unknown model"
			}
		}
	}
	graph := func(where string, ts []*rTask, ls []*rLink, n int, get func(string) *definition.Task, all []*definition.Task) string {
		if n >= 0 && len(all) != n {
			return fmt.Sprintf("%s%d tasks were made from %d", where, len(all), n)
		}
		var wt []*wTask
		seen := map[string]bool{}
		for _, t := range ts {
			if t == nil {
				return where + "a task that is null was accepted"
			}
			if seen[t.ID] {
				return fmt.Sprintf("%stwo tasks with the id %q were accepted", where, t.ID)
			}
			seen[t.ID] = true
			x := get(t.ID)
			if x == nil {
				return fmt.Sprintf("%stask %q is missing", where, t.ID)
			}
			if x.ID() != t.ID || x.Name() != t.Name || x.TypeID() != t.Type {
				return fmt.Sprintf("%stask %q has id %q, name %q, type %q", where, t.ID, x.ID(), x.Name(), x.TypeID())
			}
			if t.Type != "" && t.Type != "basic" && t.Type != "iterator" && t.Type != "doWhile" {
				return fmt.Sprintf("%stask type %q was accepted", where, t.Type)
			}
			ac := x.ActivityConfig()
			if ac == nil || ac.Activity == nil {
				return fmt.Sprintf("%stask %q without activity was accepted", where, t.ID)
			}
			ref := ""
			if t.Activity != nil {
				ref = t.Activity.Ref
				if ref == "" {
					ref = "#" + t.Activity.Type
				}
			}
			switch strings.TrimPrefix(strings.TrimPrefix(ref, "#"), "verif/harness/") {
			case "vact":
				ref = vact.Ref
			case "vret":
				ref = vret.Ref
			}
			if ac.Ref() != ref {
				return fmt.Sprintf("%stask %q has activity %q, the document says %q", where, t.ID, ac.Ref(), ref)
			}
			wt = append(wt, &wTask{ID: t.ID})
		}
		var wl []*wLink
		for _, l := range ls {
			if l == nil {
				return where + "a link that is null was accepted"
			}
			if !seen[l.From] || !seen[l.To] {
				return fmt.Sprintf("%sa link between %q and %q was accepted", where, l.From, l.To)
			}
			w := &wLink{From: l.From, To: l.To, Type: linkTypes[l.Type], Value: l.Value, Label: l.Label}
			wl = append(wl, w)
		}
		return checkLinks(where, get, nil, wt, wl)
	}
	if e := graph("", r.Tasks, r.Links, len(r.Tasks), d.GetTask, d.Tasks()); e != "" {
		return e
	}
	if len(d.Links()) != len(r.Links) {
		return fmt.Sprintf("%d links were made from %d", len(d.Links()), len(r.Links))
	}
	if (r.EH != nil) != (d.GetErrorHandler() != nil) {
		return "error handler of the document and of the definition differ"
	}
	if eh := d.GetErrorHandler(); eh != nil {
		if e := graph("error handler: ", r.EH.Tasks, r.EH.Links, len(r.EH.Tasks), eh.GetTask, eh.Tasks()); e != "" {
			return e
		}
	}
	return ""
}

// dump renders a definition by its accessors
func dump(d *definition.Definition) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %v\n", d.Name(), d.ModelID(), d.ExplicitReply())
	if md := d.Metadata(); md != nil {
		for _, m := range []map[string]data.TypedValue{md.Input, md.Output} {
			for _, k := range sortedKeys(m) {
				fmt.Fprintf(&b, "%q %v %s;", k, m[k].Type(), normJSON(m[k].Value()))
			}
			b.WriteByte('\n')
		}
	}
	apply := func(m interface {
		Apply(data.Scope) (map[string]interface{}, error)
	}) string {
		if m == nil || reflect.ValueOf(m).IsNil() {
			return "-"
		}
		v, err := m.Apply(c08Scope[0])
		return normJSON(v) + fmt.Sprint(err != nil)
	}
	ev := func(x interface {
		Eval(data.Scope) (interface{}, error)
	}) string {
		v, err := x.Eval(c08Scope[1])
		return normJSON(v) + fmt.Sprint(err != nil)
	}
	graph := func(ts []*definition.Task) {
		sort.Slice(ts, func(i, j int) bool { return ts[i].ID() < ts[j].ID() })
		for _, t := range ts {
			ac := t.ActivityConfig()
			fmt.Fprintf(&b, "%q %q %q %q %q ", t.ID(), t.Name(), t.TypeID(), ac.Ref(), ac.Type)
			if va, ok := ac.Activity.(*vact.Activity); ok {
				b.WriteString(normJSON(va.Settings))
			}
			b.WriteString(apply(ac.InputMapper()) + apply(t.SettingsMapper()))
			if l := t.LoopConfig(); l != nil {
				fmt.Fprint(&b, l.Accumulate(), l.Delay(), l.ApplyOutputOnAccumulate())
				if l.Condition() != nil {
					b.WriteString(ev(l.Condition()))
				}
				if x, ok := l.GetIterateOn().(interface {
					Eval(data.Scope) (interface{}, error)
				}); ok {
					b.WriteString(ev(x))
				} else {
					b.WriteString(normJSON(l.GetIterateOn()))
				}
			}
			if r := t.RetryOnErrConfig(); hasRetry(r) {
				c, e1 := r.Count(c08Scope[0])
				i, e2 := r.Interval(c08Scope[0])
				fmt.Fprint(&b, "retry ", c, e1 != nil, i, e2 != nil)
			}
			for _, l := range t.ToLinks() {
				fmt.Fprintf(&b, " ->%q %v %q %q", l.ToTask().ID(), l.Type(), l.Value(), l.Label())
				if l.Expr() != nil {
					b.WriteString(ev(l.Expr()))
				}
			}
			b.WriteByte('\n')
		}
	}
	graph(d.Tasks())
	if eh := d.GetErrorHandler(); eh != nil {
		b.WriteString("handler\n")
		graph(eh.Tasks())
	}
	return b.String()
}

// mutate changes the document somewhere
func mutate(s *Src, v interface{}, depth int) interface{} {
	junk := func() interface{} {
		switch s.N(12) {
		case 0:
			return nil
		case 1:
			return ""
		case 2:
			return s.N(10) - 1
		case 3:
			return []interface{}{}
		case 4:
			return J{}
		case 5:
			return true
		case 6:
			return []interface{}{nil}
		case 7:
			return "=" + badExprs[s.N(len(badExprs))]
		case 8:
			return oddIDs[s.N(len(oddIDs))]
		case 9:
			return J{"mapping": s.Str("x", "=$flow.a")}
		case 10:
			return "="
		}
		return "t" + strconv.Itoa(1+s.N(6))
	}
	switch t := v.(type) {
	case map[string]interface{}:
		ks := sortedKeys(t)
		if len(ks) == 0 || s.P(8) {
			keys := []string{"id", "type", "name", "settings", "activity", "ref", "input", "output", "schemas", "tasks", "links", "from", "to", "value", "label", "metadata", "errorHandler", "model", "condition", "iterateOn", "iterate", "loopConfig", "doWhile", "delay", "accumulate", "retryOnError", "count", "interval", "mapping", "explicitReply"}
			t[keys[s.N(len(keys))]] = junk()
			return t
		}
		k := ks[s.N(len(ks))]
		switch {
		case s.P(75):
			t[k] = mutate(s, t[k], depth+1)
		case s.P(40):
			delete(t, k)
		case s.P(20):
			t[strings.ToUpper(k)] = t[k]
			delete(t, k)
		default:
			t[k] = junk()
		}
		return t
	case []interface{}:
		if len(t) == 0 {
			return append(t, junk())
		}
		i := s.N(len(t))
		switch {
		case s.P(75):
			t[i] = mutate(s, t[i], depth+1)
			return t
		case s.P(40):
			return append(t[:i:i], t[i+1:]...)
		case s.P(50):
			return append(t, t[i])
		}
		return append(t, junk())
	}
	return junk()
}

func clone(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var r interface{}
	_ = json.Unmarshal(b, &r)
	return r
}

func runC08(cx *Cx) *Outcome {
	s := cx.S
	o := &Outcome{Feat: map[string]int{}}
	mode := s.Pick(45, 25, 20, 10)
	g := &docGen{s: s, bad: mode == 1}
	if g.bad {
		g.lbad = s.P(35)
		g.skip = s.N(4)
	}
	dm, w := g.doc()
	var doc []byte
	switch mode {
	case 2:
		c := clone(dm)
		for i, n := 0, 1+s.N(3); i < n; i++ {
			c = mutate(s, c, 0)
		}
		doc, _ = json.Marshal(c)
	case 3:
		doc, _ = json.Marshal(dm)
		for i, n := 0, 1+s.N(4); i < n && len(doc) > 1; i++ {
			p := s.N(len(doc))
			switch s.N(5) {
			case 0:
				doc = doc[:p]
			case 1:
				doc = append(doc[:p:p], doc[p+1:]...)
			case 2:
				doc = append([]byte{}, doc...)
				doc[p] = "\"{}[]:,0=$\\x\x00\xff"[s.N(14)]
			case 3:
				q := p + s.N(20)
				if q > len(doc) {
					q = len(doc)
				}
				doc = append(doc[:q:q], doc[p:]...)
			case 4:
				doc = append([]byte{}, doc...)
				doc[p] ^= 1 << s.N(8)
			}
		}
	default:
		doc, _ = json.Marshal(dm)
	}
	o.Case = map[string]interface{}{"document": string(doc), "mode": []string{"valid", "invalid", "mutated", "corrupted"}[mode], "invalid": g.what}
	fail := func(f string, a ...interface{}) *Outcome {
		o.Viol = fmt.Sprintf(f, a...)
		o.Hist = append(o.Hist, "!! "+o.Viol)
		return o
	}
	var d *definition.Definition
	var err error
	if p := recovered(func() { d, err = loadDoc(doc) }); p != "" {
		return fail("loading panics: %s", p)
	}
	o.Hist = append(o.Hist, fmt.Sprintf("loaded: error %v", err))
	if err != nil && err.Error() == "" {
		return fail("loading fails with an empty error message")
	}
	switch mode {
	case 0:
		o.Feat["valid"]++
		if err != nil {
			return fail("a valid document is rejected: %v", err)
		}
		if e := checkDef(d, w); e != "" {
			return fail("%s", e)
		}
		o.Non = len(w.Tasks) > 1 && len(w.Links) > 0
	case 1:
		if g.what == "" {
			o.Feat["valid"]++
			if err != nil {
				return fail("a valid document is rejected: %v", err)
			}
			break
		}
		o.Feat["invalid: "+g.what]++
		if err == nil {
			return fail("a document with an invalid %s is accepted", g.what)
		}
		o.Non = true
	}
	if err != nil {
		o.Feat["rejected"]++
		o.Non = o.Non || mode == 2
		d2, err2 := (*definition.Definition)(nil), error(nil)
		if p := recovered(func() { d2, err2 = loadDoc(doc) }); p != "" || err2 == nil || d2 != nil {
			return fail("a rejected document is accepted when it is loaded again")
		}
		return o
	}
	o.Feat["accepted"]++
	if mode > 1 {
		o.Non = true
		o.Feat["accepted after change"]++
	}
	if e := checkAccepted(d, doc); e != "" {
		return fail("%s", e)
	}
	before := dump(d)
	var d2 *definition.Definition
	if p := recovered(func() { d2, err = loadDoc(doc) }); p != "" || err != nil {
		return fail("an accepted document is rejected when it is loaded again: %v %s", err, p)
	}
	if a := dump(d2); a != before {
		return fail("loading again gives another definition:\n%s\n%s", before, a)
	}
	if a := dump(d); a != before {
		return fail("loading again changes the first definition:\n%s\n%s", before, a)
	}
	if p := recovered(func() { _ = d.Cleanup() }); p != "" {
		return fail("cleaning up the definition panics: %s", p)
	}
	return o
}

func recovered(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

func initC08() {
	schema.Enable()
	initEngine(nil, nil)
	appresolve.SetAppResolver(resolve.NewCompositeResolver(map[string]resolve.Resolver{".": &resolve.ScopeResolver{}, "env": &resolve.EnvResolver{}}))
	_ = support.RegisterAlias("activity", "vact", vact.Ref)
	_ = support.RegisterAlias("activity", "vret", vret.Ref)
}

func init() {
	register(&Prop{ID: "C08", Quick: 100000, Thorough: 6000000, Run: runC08, Variants: []Variant{{Name: "load"}},
		Init: func(*Variant) { initC08() },
		Rule: "Generated flow documents with every optional field and spelling, documents with one of the listed defects, structurally mutated documents and corrupted bytes; non-trivial: a valid document with several tasks and a link, an invalid one, or a structurally mutated one or a corrupted one that is still accepted"})
}
