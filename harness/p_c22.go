package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data/property"
	"github.com/project-flogo/flow/definition"
	"verif/harness/vact"
	"verif/harness/vfix"
)

// C22: reconfiguration. The model is one map of settings per task; documents
// change it as the property says, and activities are asked what they have got.

type cfgTask struct {
	flow  int
	eh    bool
	t     *Task
	dt    *definition.Task
	obj   *vact.Activity
	have  map[string]interface{}   // what the engine has to know
	act   map[string]interface{}   // what the activity has to know
	calls []map[string]interface{} // reconfigurations that have been observed
}

func (t *cfgTask) String() string {
	h := ""
	if t.eh {
		h = "'s error handler"
	}
	return fmt.Sprintf("task %s of flow%d%s", t.t.ID, t.flow, h)
}

// cfgVal is a generated setting
type cfgVal struct {
	Raw  interface{}
	want func(props map[string]interface{}) (interface{}, bool)
}

func is(v interface{}) func(map[string]interface{}) (interface{}, bool) {
	return func(map[string]interface{}) (interface{}, bool) { return v, true }
}

func bad(map[string]interface{}) (interface{}, bool) { return nil, false }

func ofProp(n string) func(map[string]interface{}) (interface{}, bool) {
	return func(p map[string]interface{}) (interface{}, bool) {
		v, ok := p[n]
		return v, ok
	}
}

func badSetting(s *Src) cfgVal {
	l := []string{"=$property[nope]", "=+", "=$env[VERIF_NOPE]", "=$flow.x", "=$activity[a].val", "=(1", "=nofunc.f(1)"}
	return cfgVal{l[s.N(len(l))], bad}
}

func genSetting(s *Src, name string, fail int) cfgVal {
	if s.P(fail) {
		return badSetting(s)
	}
	n := s.N(50)
	str := fmt.Sprintf("s%d", n)
	switch name {
	case "num":
		if s.P(fail) {
			l := []interface{}{"abc", map[string]interface{}{"a": 1.0}, []interface{}{1.0}, "=$property[ps]"}
			return cfgVal{l[s.N(len(l))], bad}
		}
		switch s.N(6) {
		case 0:
			return cfgVal{fmt.Sprint(n), is(n)}
		case 1:
			return cfgVal{"=$property[pn]", ofProp("pn")}
		case 2:
			return cfgVal{fmt.Sprintf("=%d + 1", n), is(n + 1)}
		default:
			return cfgVal{float64(n), is(n)}
		}
	case "str":
		switch s.N(7) {
		case 0:
			return cfgVal{float64(n), is(fmt.Sprint(n))}
		case 1:
			return cfgVal{"=$property[ps]", ofProp("ps")}
		case 2:
			return cfgVal{"=\"" + str + "\"", is(str)}
		case 3:
			return cfgVal{"=$property[pn]", func(p map[string]interface{}) (interface{}, bool) { return fmt.Sprint(p["pn"]), true }}
		case 4:
			return cfgVal{"=$env[VERIF_C22]", func(p map[string]interface{}) (interface{}, bool) { return p["env"], true }}
		case 5:
			return cfgVal{"", is("")}
		default:
			return cfgVal{str, is(str)}
		}
	case "obj":
		if s.P(fail) {
			l := []interface{}{"notjson", 5.0, true}
			return cfgVal{l[s.N(len(l))], bad}
		}
		o := map[string]interface{}{"a": float64(n), "b": []interface{}{str, nil}}
		if s.P(30) {
			return cfgVal{string(mustJSON(o)), is(o)}
		}
		return cfgVal{o, is(o)}
	}
	switch s.N(6) {
	case 0:
		return cfgVal{"=$property[ps]", ofProp("ps")}
	case 1:
		return cfgVal{[]interface{}{float64(n), str}, is([]interface{}{float64(n), str})}
	case 2:
		return cfgVal{map[string]interface{}{"x": str}, is(map[string]interface{}{"x": str})}
	case 3:
		return cfgVal{s.N(2) == 1, nil}.same()
	default:
		return cfgVal{genScalar(s), nil}.same()
	}
}

func (c cfgVal) same() cfgVal {
	if x, ok := c.Raw.(string); ok && strings.HasPrefix(x, "=") {
		c.Raw = "e" + x
	}
	var v interface{}
	if err := json.Unmarshal(mustJSON(c.Raw), &v); err != nil {
		panic("harness: " + err.Error())
	}
	c.want = is(v)
	return c
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

var cfgNames = []string{"cfg", "num", "str", "obj", "free"}

func genSettings(s *Src, fail int, many int) (raw map[string]interface{}, vals map[string]cfgVal) {
	raw, vals = map[string]interface{}{}, map[string]cfgVal{}
	for _, n := range cfgNames {
		if s.P(many) {
			v := genSetting(s, n, fail)
			raw[n], vals[n] = v.Raw, v
		}
	}
	return
}

func (c *c22) props(s *Src) {
	c.p = map[string]interface{}{"pn": 100 + s.N(100), "ps": fmt.Sprintf("prop%d", s.N(100)), "env": fmt.Sprintf("env%d", s.N(100))}
	props := map[string]interface{}{"pn": c.p["pn"], "ps": c.p["ps"]}
	for k, v := range appProps {
		props[k] = v
	}
	property.SetDefaultManager(property.NewManager(props))
	_ = os.Setenv("VERIF_C22", c.p["env"].(string))
}

type c22 struct {
	mu    sync.Mutex
	o     *Outcome
	cs    *Case
	l     *Loaded
	rm    *resource.Manager
	p     map[string]interface{}
	ts    []*cfgTask
	byObj map[*vact.Activity]*cfgTask
	defs  []*definition.Definition
	dumps []string
	ops   []interface{}
	beh   map[*cfgTask]int // 1: reconfiguration gives an error
}

func (c *c22) fail(f string, a ...interface{}) {
	if c.o.Viol == "" {
		c.o.Viol = fmt.Sprintf(f, a...)
	}
}

// hook is what activities do when they are reconfigured
func (c *c22) hook(a *vact.Activity, settings map[string]interface{}) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.byObj[a]
	if t == nil {
		c.fail("an activity of no loaded flow is reconfigured")
		return nil
	}
	got := copyMap(settings)
	t.calls = append(t.calls, got)
	switch c.beh[t] {
	case 1:
		return errors.New("activity cannot be reconfigured")
	}
	a.Settings = got
	return nil
}

func eqSettings(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || fmt.Sprintf("%T", v) != fmt.Sprintf("%T", w) || normJSON(v) != normJSON(w) {
			return false
		}
	}
	return true
}

func showS(m map[string]interface{}) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, " %s=%s(%T)", k, normJSON(m[k]), m[k])
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

// known reads the settings the engine has
func (t *cfgTask) known() map[string]interface{} {
	m := map[string]interface{}{}
	for _, n := range cfgNames {
		if v, ok := t.dt.ActivityConfig().GetSetting(n); ok {
			m[n] = v
		}
	}
	return m
}

func (c *c22) check(when string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range c.ts {
		if g := t.known(); !eqSettings(g, t.have) {
			c.fail("%s: the settings of %v are %s, not %s", when, t, showS(g), showS(t.have))
		}
		if !eqSettings(t.obj.Settings, t.act) {
			c.fail("%s: the activity of %v was configured with %s, not %s", when, t, showS(t.obj.Settings), showS(t.act))
		}
	}
	for i, d := range c.defs {
		if s := c.dump(d); s != c.dumps[i] {
			c.fail("%s: flow%d has changed:\n%s\nwas\n%s", when, i, s, c.dumps[i])
		}
	}
}

func (c *c22) dump(d *definition.Definition) string {
	var b strings.Builder
	graph := func(ts []*definition.Task) {
		m := map[string]*definition.Task{}
		for _, t := range ts {
			m[t.ID()] = t
		}
		for _, id := range sortedKeys(m) {
			t := m[id]
			ac := t.ActivityConfig()
			fmt.Fprintf(&b, "%q %q %q %q %q %p %p %p %p", id, t.Name(), t.TypeID(), ac.Ref(), ac.Type, ac.Activity, ac.InputMapper(), t.SettingsMapper(), t.LoopConfig())
			for _, l := range t.ToLinks() {
				fmt.Fprintf(&b, " ->%q %v %q %q %p", l.ToTask().ID(), l.Type(), l.Value(), l.Label(), l.Expr())
			}
			b.WriteByte('\n')
		}
	}
	fmt.Fprintf(&b, "%q %q %v %p\n", d.Name(), d.ModelID(), d.ExplicitReply(), d.Metadata())
	graph(d.Tasks())
	if eh := d.GetErrorHandler(); eh != nil {
		b.WriteString("handler\n")
		graph(eh.Tasks())
	}
	return b.String()
}

type cfgEffect struct {
	t    *cfgTask
	vals map[string]cfgVal
}

// doc makes a document for a flow; effects are what it asks for, in order
func (c *c22) doc(s *Src, fi int, strict bool) (doc []byte, effects []cfgEffect, broken bool) {
	d := c.cs.Flows[fi].Doc(func(i int) string { return c.l.uris[i] })
	graph := func(d map[string]interface{}, eh bool) {
		ts, _ := d["tasks"].([]interface{})
		var nts []interface{}
		emit := func(tm map[string]interface{}) {
			if s.P(12) {
				return // not mentioned
			}
			nts = append(nts, tm)
			id := tm["id"].(string)
			var ct *cfgTask
			for _, t := range c.ts {
				if t.flow == fi && t.eh == eh && t.t.ID == id {
					ct = t
				}
			}
			act := tm["activity"].(map[string]interface{})
			if ct == nil {
				return
			}
			fail := 6
			if strict {
				fail = 0
			}
			raw, vals := genSettings(s, fail, 45)
			act["settings"] = raw
			switch {
			case len(raw) == 0 && s.P(50):
				delete(act, "settings")
			case len(raw) == 0 && s.P(50):
				act["settings"] = nil
			case !strict && s.P(3):
				delete(tm, "activity")
				vals = nil
			case !strict && s.P(2):
				tm["activity"] = nil
				vals = nil
			case s.P(4):
				delete(act, "ref")
			case s.P(4):
				act["ref"] = "no/such/ref"
			}
			effects = append(effects, cfgEffect{ct, vals})
		}
		for _, t := range ts {
			tm := t.(map[string]interface{})
			// other parts of the document have no effect
			switch s.N(12) {
			case 0:
				tm["name"] = "other name"
			case 1:
				tm["type"] = "unknown"
			case 2:
				tm["settings"] = map[string]interface{}{"loopConfig": map[string]interface{}{"type": "iterate", "iterateOn": 5}}
			case 3:
				if act, ok := tm["activity"].(map[string]interface{}); ok {
					act["input"] = map[string]interface{}{"a": "=$activity[", "i": "x"}
				}
			}
			emit(tm)
			if s.P(5) {
				b := clone(tm).(map[string]interface{})
				if act, ok := b["activity"].(map[string]interface{}); ok && act != nil {
					emit(b)
				}
			}
			if !strict && s.P(3) {
				nts = append(nts, nil)
			}
			if s.P(5) {
				nts = append(nts, map[string]interface{}{"id": "nosuchtask", "activity": map[string]interface{}{"ref": refAct, "settings": map[string]interface{}{"num": "x"}}})
			}
		}
		if nts == nil {
			nts = []interface{}{}
		}
		if len(nts) > 1 && s.P(25) {
			// another order
			k := s.N(len(nts) - 1)
			nts = append(append([]interface{}{}, nts[k+1:]...), nts[:k+1]...)
			var e1, e2 []cfgEffect
			n := 0
			for _, t := range nts[:len(nts)-k-1] {
				if m, ok := t.(map[string]interface{}); ok && m != nil && c.isTask(fi, eh, m["id"]) {
					n++
				}
			}
			start := 0
			for start < len(effects) && effects[start].t.eh != eh {
				start++
			}
			es := effects[start:]
			e1 = append(e1, es[len(es)-n:]...)
			e2 = append(e2, es[:len(es)-n]...)
			effects = append(append(effects[:start:start], e1...), e2...)
		}
		d["tasks"] = nts
		switch s.N(8) {
		case 0:
			delete(d, "links")
		case 1:
			d["links"] = []interface{}{map[string]interface{}{"from": "x", "to": "y", "type": "zz"}}
		}
	}
	graph(d, false)
	if eh, ok := d["errorHandler"].(map[string]interface{}); ok {
		switch {
		case s.P(10):
			delete(d, "errorHandler")
		case s.P(5):
			d["errorHandler"] = nil
		default:
			graph(eh, true)
		}
	} else if s.P(10) {
		// a handler the flow has not got
		d["errorHandler"] = map[string]interface{}{"tasks": clone(d["tasks"])}
	}
	switch s.N(10) {
	case 0:
		d["name"] = "renamed"
	case 1:
		d["model"] = "nosuchmodel"
	case 2:
		delete(d, "metadata")
	}
	if !strict && s.P(3) {
		// no tasks of the main flow
		var rest []cfgEffect
		for _, e := range effects {
			if e.t.eh {
				rest = append(rest, e)
			}
		}
		effects = rest
		if s.P(50) {
			d["tasks"] = nil
		} else {
			delete(d, "tasks")
		}
	}
	doc = mustJSON(d)
	if !strict && s.P(8) {
		// cannot be parsed
		switch s.N(6) {
		case 0:
			doc = doc[:s.N(len(doc))]
		case 1:
			d["tasks"] = "x"
			doc = mustJSON(d)
		case 2:
			d["tasks"] = []interface{}{map[string]interface{}{"id": 5.0}}
			doc = mustJSON(d)
		case 3:
			doc = nil
		case 4:
			d["errorHandler"] = []interface{}{1.0}
			doc = mustJSON(d)
		default:
			d["tasks"] = []interface{}{map[string]interface{}{"id": "x", "activity": map[string]interface{}{"settings": []interface{}{}}}}
			doc = mustJSON(d)
		}
		return doc, nil, true
	}
	return doc, effects, false
}

func (c *c22) isTask(fi int, eh bool, id interface{}) bool {
	for _, t := range c.ts {
		if t.flow == fi && t.eh == eh && t.t.ID == id {
			return true
		}
	}
	return false
}

// expect applies the effects to the model and returns the calls that are expected
func (c *c22) expect(es []cfgEffect, calls map[*cfgTask][]map[string]interface{}) {
	for _, e := range es {
		t := e.t
		if t.t.Fixed || e.vals == nil {
			continue
		}
		n := copyMap(t.have)
		ok := true
		for _, k := range sortedKeys(e.vals) {
			v, good := e.vals[k].want(c.p)
			if !good {
				ok = false
				break
			}
			n[k] = v
		}
		if !ok {
			c.o.Feat["invalid-settings"]++
			continue
		}
		calls[t] = append(calls[t], n)
		switch c.beh[t] {
		case 0:
			t.have, t.act = n, n
			if len(e.vals) > 0 {
				c.o.Feat["reconfigured"]++
			}
		case 1:
			// the activity keeps what it has; what the engine notes is its own affair
			c.o.Feat["refused"]++
		}
	}
}

func (c *c22) reconf(s *Src, strict bool) {
	c.props(s)
	c.beh = map[*cfgTask]int{}
	if !strict {
		for _, t := range c.ts {
			if s.P(5) {
				c.beh[t] = 1
			}
		}
	}
	var confs []*resource.Config
	calls := map[*cfgTask][]map[string]interface{}{}
	var op []interface{}
	failed := false
	for fi := range c.cs.Flows {
		if s.P(20) {
			continue
		}
		doc, es, broken := c.doc(s, fi, strict)
		confs = append(confs, &resource.Config{ID: c.l.uris[fi][6:], Data: doc})
		op = append(op, map[string]interface{}{"flow": fi, "doc": string(doc), "cannot-be-parsed": broken})
		c.o.Feat["documents"]++
		if failed {
			continue
		}
		if broken {
			failed = true
			c.o.Feat["unparsable"]++
			continue
		}
		c.expect(es, calls)
	}
	if s.P(10) {
		confs = append(confs, &resource.Config{ID: "flow:nosuchflow", Data: []byte("{")})
	}
	c.ops = append(c.ops, op)
	for _, t := range c.ts {
		t.calls = nil
	}
	var err error
	if !within(func() { err = c.rm.ReconfigureResources(confs) }) {
		c.o.Hang = true
		c.fail("hang: the reconfiguration does not end")
		return
	}
	if failed && err == nil {
		c.fail("a document that cannot be parsed gives no error")
	}
	if !failed && err != nil && len(c.beh) == 0 && c.o.Feat["invalid-settings"] == 0 {
		c.fail("a valid document is rejected: %v", err)
	}
	c.mu.Lock()
	for _, t := range c.ts {
		want := calls[t]
		got := t.calls
		// a task of the document without settings may be skipped
		if len(t.have) > 0 || len(got) > 0 {
			var rest []map[string]interface{}
			i := 0
			for _, w := range want {
				if i < len(got) && eqSettings(got[i], w) {
					i++
					continue
				}
				rest = append(rest, w)
			}
			if i < len(got) {
				c.fail("%v was reconfigured with %s, expected were %d reconfigurations %v", t, showS(got[i]), len(want), want)
			}
			for _, w := range rest {
				if !eqSettings(w, t.act) || c.beh[t] == 1 {
					if c.beh[t] == 0 || len(got) == 0 {
						c.fail("%v was not reconfigured with %s", t, showS(w))
					}
				}
			}
		}
		if c.beh[t] == 1 {
			t.have = t.known()
			ok := eqSettings(t.have, t.act)
			for _, w := range want {
				ok = ok || eqSettings(t.have, w)
			}
			if !ok {
				c.fail("the settings of %v, whose activity refused to be reconfigured, are %s", t, showS(t.have))
			}
		}
	}
	c.mu.Unlock()
}

func runC22(cx *Cx) *Outcome {
	s := cx.S
	o := &Outcome{Feat: map[string]int{}}
	c := &c22{o: o, byObj: map[*vact.Activity]*cfgTask{}}
	c.props(s)
	vact.ReconfHook = c.hook
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 2, 3
	p.Legacy = 0
	p.Sub, p.Loop, p.Retry, p.EH, p.ErrLink = 15, 12, 8, 50, 15
	p.Fail, p.Maps, p.Chain = 20, 1, 80
	c.cs = genCase(s, p)
	o.Case = map[string]interface{}{"flows": c.cs, "ops": &c.ops}
	for fi, f := range c.cs.Flows {
		for k, g := range []*Graph{f.G, f.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				if t.Sub > 0 {
					continue
				}
				ct := &cfgTask{flow: fi, eh: k == 1, t: t, have: map[string]interface{}{}}
				t.Fixed = s.P(15)
				raw, vals := genSettings(s, 0, 60)
				if len(raw) == 0 {
					raw, vals = map[string]interface{}{"num": 1.0}, map[string]cfgVal{"num": {1.0, is(1)}}
				}
				t.Cfg = raw
				for n, v := range vals {
					ct.have[n], _ = v.want(c.p)
				}
				ct.act = ct.have
				c.ts = append(c.ts, ct)
			}
		}
	}
	l, err := load(c.cs)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	c.l = l
	res := map[string]*resource.Resource{}
	for _, u := range l.uris {
		r := ictx.resources[u[6:]]
		if r == nil {
			panic("harness: no resource " + u)
		}
		res[u[6:]] = r
		d, ok := r.Object().(*definition.Definition)
		if !ok {
			panic("harness: resource is no flow")
		}
		c.defs = append(c.defs, d)
	}
	c.rm = resource.NewManager(res)
	for _, t := range c.ts {
		t.dt = c.defs[t.flow].GetTask(t.t.ID)
		if t.eh {
			for _, x := range c.defs[t.flow].GetErrorHandler().Tasks() {
				if x.ID() == t.t.ID {
					t.dt = x
				}
			}
		}
		switch a := t.dt.ActivityConfig().Activity.(type) {
		case *vact.Activity:
			t.obj = a
		case *vfix.Activity:
			t.obj = a.A
		}
		c.byObj[t.obj] = t
	}
	for _, d := range c.defs {
		c.dumps = append(c.dumps, c.dump(d))
	}
	c.check("after loading")
	steps := 1 + s.N(4)
	for i := 0; i < steps && o.Viol == ""; i++ {
		during := s.P(20)
		if !during {
			c.reconf(s, false)
			c.check(fmt.Sprintf("after reconfiguration %d", i+1))
		}
		if o.Viol != "" || !(during || s.P(50)) {
			continue
		}
		// a run, with a reconfiguration during it
		r := newRun(c.cs, &RunOpts{})
		at, n, delays := s.N(4), 0, s.N(3)
		var wg sync.WaitGroup
		applied := false
		var rmu sync.Mutex
		r.onObj = func(a *vact.Activity, ti *TI, ctx activity.Context) {
			rmu.Lock()
			n++
			now := during && !applied && n > at
			if now {
				applied = true
			}
			rmu.Unlock()
			if now {
				c.o.Feat["during-run"]++
				if delays == 0 {
					wg.Add(1)
					go func() {
						defer wg.Done()
						c.reconf(s, true)
					}()
					runtime.Gosched()
				} else {
					c.reconf(s, true)
				}
			}
			c.mu.Lock()
			t := c.byObj[a]
			c.mu.Unlock()
			if t == nil {
				return
			}
			k := t.known()
			if during {
				// before, during or after the reconfiguration
				return
			}
			c.mu.Lock()
			defer c.mu.Unlock()
			o.Feat["executions-checked"]++
			if !eqSettings(a.Settings, t.act) || !eqSettings(k, t.have) {
				c.fail("a run after reconfiguration %d executes %v with %s (%s), not %s", i+1, t, showS(a.Settings), showS(k), showS(t.act))
			}
		}
		err := l.execRun(r, &RunOpts{})
		endRun(r.M.pid)
		wg.Wait()
		r.M.mu.Lock()
		o.Feat["executions"] += r.M.execs
		if err == errTimeout {
			o.Hang = true
		}
		if r.M.viol != "" && o.Viol == "" {
			o.Viol, o.Hist = r.M.viol, append([]string{}, r.M.hist...)
		}
		r.M.mu.Unlock()
		c.check(fmt.Sprintf("after run %d", i+1))
	}
	takeOrphans()
	o.Non = o.Feat["reconfigured"] > 0
	return o
}

func init() {
	register(&Prop{ID: "C22", Quick: 60000, Thorough: 700000, Run: runC22,
		Variants: []Variant{seqVar, {Name: "reconfigurable-properties", Env: []string{"FLOGO_APP_PROP_RECONFIGURE=true"}}, raceSeqVar},
		Rule:     "Flows with settings on the tasks of main flow, handler and subflow and sequences of documents with new, partial, unresolvable, unconvertible and absent settings, changed properties, unknown tasks, other parts changed, and documents that cannot be parsed, before, between and during runs; non-trivial: at least one activity got new settings"})
}
