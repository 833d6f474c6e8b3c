package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/project-flogo/flow/instance"
	flowsupport "github.com/project-flogo/flow/support"
)

// the numbers of documents and reports
const (
	icAssert    = 1
	icAssertErr = 2
	icSkip      = 3
	icMock      = 4
	icMockErr   = 5

	asPrimitive = 1

	resNone       = 0
	resPass       = 1
	resFail       = 2
	resMocked     = 3
	resAssertNone = 4
)

// C12: interceptors. Flows are generated together with an interceptor; the
// model knows what the interceptor does to the tasks.

// Icept is the interceptor of a task
type Icept struct {
	Flow     int                    `json:"flow"`
	Task     string                 `json:"task"`
	Plain    bool                   `json:"plain,omitempty"` // named by the id of the task only
	Type     int                    `json:"type"`
	SkipExec bool                   `json:"skipExec,omitempty"`
	Skip     bool                   `json:"skip,omitempty"`
	Inputs   map[string]interface{} `json:"inputs,omitempty"`
	InWant   map[string]interface{} `json:"inWant,omitempty"`
	Outputs  map[string]interface{} `json:"outputs,omitempty"`
	OutWant  map[string]interface{} `json:"outWant,omitempty"`
	OutBad   bool                   `json:"outBad,omitempty"` // an output cannot be converted
	Msg      string                 `json:"msg,omitempty"`
	Asserts  []*Expr                `json:"asserts,omitempty"`

	// expected
	status map[int]bool
	msg    string // token of the message
	res    []int
	evals  int
}

type C12Case struct {
	*Case
	Icepts []*Icept `json:"icepts"`
	IO     bool     `json:"collectIO,omitempty"`
	JSON   bool     `json:"json,omitempty"`
	NoCov  bool     `json:"noCoverage,omitempty"`
}

func (c *C12Case) replaced(ic *Icept) bool { return ic.SkipExec || ic.Skip }

func genC12(s *Src, conc bool) *C12Case {
	var cs *Case
	if conc {
		cs = genC14(s)
	} else {
		p := baseProf()
		p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 4
		p.Sub, p.Loop, p.Retry = 25, 15, 8
		p.ErrLink, p.EH = 20, 45
		p.Fail, p.Panic = 16, 25
		p.MapFail, p.Risky, p.CondFail, p.SetFail = 10, 20, 5, 4
		p.Return, p.Reply, p.SetOut, p.EmptyFlow, p.OnProbe = 6, 4, 25, 4, 4
		cs = genCase(s, p)
	}
	c := &C12Case{Case: cs, IO: s.P(50), JSON: s.P(50), NoCov: s.P(50)}
	used := usedOutputs(cs, conc)
	for fi, f := range cs.Flows {
		for _, g := range []*Graph{f.G, f.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				if s.P(55) {
					c.icept(s, fi, f, t, used, conc, true)
				}
			}
		}
	}
	if s.P(35) {
		ic := &Icept{Flow: 0, Task: "_flowOutput", Type: icAssert}
		if s.P(50) {
			ic.Type = icAssertErr
		}
		for i, n := 0, 1+s.N(3); i < n; i++ {
			e := genAssert(s, cs.Flows[0], nil)
			if ic.Type == icAssert && e.Find(func(x *Expr) bool { return x.K == "err" }) {
				e = Lit(true)
			}
			ic.Asserts = append(ic.Asserts, e)
		}
		c.Icepts = append(c.Icepts, ic)
	}
	if s.P(15) {
		c.Icepts = append(c.Icepts, &Icept{Flow: 0, Task: "nosuch", Type: icMock, SkipExec: true, Outputs: map[string]interface{}{"val": "x"}})
	}
	return c
}

// usedOutputs: tasks whose outputs are needed
func usedOutputs(cs *Case, all bool) map[string]bool {
	used := map[string]bool{}
	see := func(e *Expr) {
		e.Find(func(x *Expr) bool {
			if x.K == "act" || x.K == "acc" {
				used[x.Name] = true
			}
			return false
		})
	}
	for _, f := range cs.Flows {
		for _, g := range []*Graph{f.G, f.EH} {
			if g == nil {
				continue
			}
			for _, l := range g.Links {
				see(l.Cond)
			}
			for _, t := range g.Tasks {
				see(t.SetOK)
				see(t.SetFail)
				if t.Loop != nil {
					see(t.Loop.On)
					see(t.Loop.Cond)
				}
				if t.Retry != nil {
					see(t.Retry.CountE)
				}
				for _, m := range t.Maps {
					if !all && m.E != nil && probes(m.E, "T") && !m.E.Find(func(x *Expr) bool { return x.K == "acc" }) {
						continue // may fail
					}
					see(m.E)
					for _, e := range m.Obj {
						see(e)
					}
				}
			}
		}
	}
	return used
}

func probes(e *Expr, kind string) bool {
	return e.Find(func(x *Expr) bool { return x.K == "fn" && x.Name == "probe" && x.Args[0].V == kind })
}

func (c *C12Case) icept(s *Src, fi int, f *Flow, t *Task, used map[string]bool, conc, replace bool) {
	ic := &Icept{Flow: fi, Task: t.ID}
	c.Icepts = append(c.Icepts, ic)
	kind := s.Pick(25, 12, 12, 8, 20, 20, 12)
	if !replace {
		kind = 4 + s.Pick(20, 20, 60)
	}
	switch kind {
	case 0: // other outputs instead of the execution
		ic.Type, ic.SkipExec = icMock, true
		c.outputs(s, ic, t, used)
		if conc {
			ic.noBad() // only one failure
		}
	case 1: // an error instead of the execution
		if conc {
			ic.Type = icAssert
			break
		}
		ic.Type, ic.SkipExec = icMockErr, true
		ic.Msg = fmt.Sprintf("MOCK%d;", s.N(1000))
		ic.Outputs = map[string]interface{}{"message": ic.Msg}
		switch s.N(5) {
		case 0:
			ic.Msg, ic.Outputs["message"] = "42", 42
		case 1:
			ic.Msg = ""
			delete(ic.Outputs, "message")
			ic.Outputs["data"] = "x"
		case 2:
			ic.Outputs["data"] = map[string]interface{}{"k": 1}
		}
	case 2: // nothing instead of the execution
		if used[t.ID] {
			ic.Type = icAssert
			break
		}
		ic.Type, ic.SkipExec = icSkip, true
	case 3:
		if used[t.ID] {
			ic.Type = icAssert
			break
		}
		ic.Skip, ic.Plain = true, s.P(50) && c.once(t.ID)
	case 4:
		ic.Type = icAssert
	case 5:
		ic.Type = icAssertErr
	case 6: // some outputs replaced
		ic.Type = icMock
		c.outputs(s, ic, t, map[string]bool{t.ID: true})
		ic.noBad()
	}
	if c.replaced(ic) {
		replaceTask(t)
	}
	if ic.Type == icAssert || ic.Type == icAssertErr || s.P(15) {
		for i, n := 0, 1+s.N(3); i < n; i++ {
			ic.Asserts = append(ic.Asserts, genAssert(s, f, t))
		}
		if s.P(8) {
			ic.Asserts = append(ic.Asserts, nil)
		}
	}
	if s.P(25) {
		in := ic
		if s.P(40) && !ic.Plain && c.once(t.ID) {
			in = &Icept{Flow: fi, Task: t.ID, Plain: true}
			c.Icepts = append(c.Icepts, in)
		}
		in.Inputs, in.InWant = map[string]interface{}{}, map[string]interface{}{}
		set := func(n string, v, w interface{}) { in.Inputs[n], in.InWant[n] = v, w }
		if t.Sub > 0 {
			p := c.Flows[t.Sub-1].In[s.N(len(ioTypes))]
			switch p.Type {
			case "integer":
				set(p.Name, "3", 3)
			case "string":
				set(p.Name, 12, "12")
			case "boolean":
				set(p.Name, "true", true)
			case "any":
				set(p.Name, "over", "over")
			case "object":
				set(p.Name, map[string]interface{}{"x": 1, "y": map[string]interface{}{"z": "o"}, "l": []interface{}{1, 2}}, map[string]interface{}{"x": 1, "y": map[string]interface{}{"z": "o"}, "l": []interface{}{1, 2}})
			case "array":
				set(p.Name, `[1]`, []interface{}{1})
			}
		} else {
			switch s.N(4) {
			case 0:
				set("s", 7, "7")
			case 1:
				set("i", "8", 8)
			case 2:
				set("b", "overridden", "overridden")
			default:
				set("q", 1, true)
				set("b", nil, nil)
			}
		}
	}
}

// once: only one flow has such a task
func (cs *Case) once(id string) bool {
	n := 0
	for _, f := range cs.Flows {
		for _, g := range []*Graph{f.G, f.EH} {
			if g != nil && g.task(id) != nil {
				n++
			}
		}
	}
	return n == 1
}

// replaceTask has the model told when the inputs of the task are computed, as the activity will not be
func replaceTask(t *Task) {
	if t.Sub > 0 {
		t.Maps[0].E.Find(func(x *Expr) bool {
			if x.K == "fn" && x.Name == "probe" && x.Args[0].V == "S" {
				x.Args[0] = Lit("M")
				return true
			}
			return false
		})
		return
	}
	var key *Expr
	if t.Loop != nil && t.Loop.Object {
		key = IterRef("key")
	}
	for _, m := range t.Maps {
		if m.E != nil && probes(m.E, "T") {
			n := len(m.E.Args)
			m.E.Args[n-1] = Fn("fst", m.E.Args[n-1], probeExpr("M", t.ID, key))
			return
		}
	}
	t.Maps[0].E = Fn("fst", t.Maps[0].E, probeExpr("M", t.ID, key))
}

func (c *C12Case) outputs(s *Src, ic *Icept, t *Task, used map[string]bool) {
	ic.Outputs, ic.OutWant = map[string]interface{}{}, map[string]interface{}{}
	set := func(n string, v, w interface{}) { ic.Outputs[n], ic.OutWant[n] = v, w }
	if t.Sub > 0 {
		for _, p := range c.Flows[t.Sub-1].Out {
			switch p.Type {
			case "integer":
				set(p.Name, "5", 5)
			case "string":
				set(p.Name, 5, "5")
			case "boolean":
				set(p.Name, "true", true)
			default:
				set(p.Name, "mocked", "mocked")
			}
		}
		if len(ic.Outputs) == 0 {
			set("unknown", 1, 1)
		}
		return
	}
	for _, o := range t.Outs {
		switch o.Name {
		case "val", "in":
			set(o.Name, "mocked", "mocked")
		case "i":
			if s.P(50) {
				set("i", 100, 100)
			} else {
				set("i", "100", 100)
			}
		case "tag":
			if s.P(50) {
				set("tag", 5, "5")
			} else {
				set("tag", "blue", "blue")
			}
		case "o":
			set("o", map[string]interface{}{"k": 9, "m": map[string]interface{}{"n": "y"}}, map[string]interface{}{"k": 9, "m": map[string]interface{}{"n": "y"}})
		case "arr":
			if o.Kind == "typed" && o.V == "objs" {
				a := []interface{}{map[string]interface{}{"x": 7, "y": "m"}}
				set("arr", a, a)
			} else if s.P(50) {
				set("arr", `["m0",1]`, []interface{}{"m0", 1})
			} else {
				set("arr", []interface{}{"m0", 1}, []interface{}{"m0", 1})
			}
		}
	}
	if s.P(20) {
		set("unknown", "u", "u")
	}
	if s.P(6) && !used[t.ID] {
		ic.Outputs["i"] = "not a number"
		ic.OutBad = true
	}
}

func (ic *Icept) noBad() {
	if ic.OutBad {
		ic.OutBad = false
		ic.Outputs, ic.OutWant = nil, nil
	}
}

// genAssert generates the expression of an assertion
func genAssert(s *Src, f *Flow, t *Task) *Expr {
	in := func(typ string) *Expr {
		for _, p := range f.In {
			if p.Type == typ {
				return FlowRef(p.Name)
			}
		}
		panic("no " + typ)
	}
	switch s.N(11) {
	case 0:
		return Op(s.Str("==", "!="), in("boolean"), Lit(true))
	case 1:
		return Op(s.Str("<", ">=", "=="), in("integer"), Lit(s.N(4)))
	case 2:
		return Op(s.Str("==", "!="), in("string"), Lit(s.Str("", "x")))
	case 3:
		return []*Expr{Fn("fail", Lit("assert")), Fn("boom", Lit("assert")), ActRef("nosuch", "val"), FlowRef("nosuch"), ErrRef("nosuch", "message")}[s.N(5)]
	case 4:
		return Op(">", Op("+", in("integer"), Lit(s.N(3))), Lit(1))
	case 5, 6:
		if t != nil {
			if t.Retry != nil {
				return in("boolean") // the error of a failed attempt stays there
			}
			return Op(s.Str("==", "!="), ErrRef(t.ID, "code"), Lit(s.Str("", "c1")))
		}
		return Op(s.Str("==", "!="), ErrRef("", "code"), Lit(s.Str("", "c1")))
	case 7:
		if len(f.Out) > 0 {
			o := f.Out[s.N(len(f.Out))]
			return Op("==", FlowRef(o.Name), Lit(genLitOf(s, "boolean")))
		}
	case 8:
		return Lit(s.N(2) == 0)
	}
	if t == nil || t.Sub > 0 || len(t.Outs) == 0 {
		return in("boolean")
	}
	o := t.Outs[s.N(len(t.Outs))]
	e := ActRef(t.ID, o.Name)
	switch o.Name {
	case "i":
		return Op(s.Str("==", "<", ">"), e, Lit(s.N(3)))
	case "tag":
		return Op(s.Str("==", "!="), e, Lit(s.Str("red", "blue", "green")))
	case "o":
		e.Path = []string{"k"}
		return Op("<", e, Lit(s.N(10)))
	}
	return Op(s.Str("==", "!="), e, Lit("mocked"))
}

func (c *C12Case) id(ic *Icept) string {
	if ic.Plain {
		return ic.Task
	}
	return c.Flows[ic.Flow].Name + "-" + ic.Task
}

// build creates the interceptor as the caller would
func (c *C12Case) build() *flowsupport.Interceptor {
	x := &flowsupport.Interceptor{CollectIO: c.IO}
	if !c.NoCov {
		x.Coverage = &flowsupport.Coverage{}
	}
	for _, ic := range c.Icepts {
		ti := &flowsupport.TaskInterceptor{ID: c.id(ic), Skip: ic.Skip, SkipExecution: ic.SkipExec, Inputs: ic.Inputs, Outputs: ic.Outputs, Type: ic.Type}
		for i, e := range ic.Asserts {
			a := flowsupport.Assertion{ID: fmt.Sprint(i), Name: fmt.Sprint("a", i), Type: asPrimitive, Expression: ""}
			if e != nil {
				a.Expression = e.Text()
			}
			ti.Assertions = append(ti.Assertions, a)
		}
		x.TaskInterceptors = append(x.TaskInterceptors, ti)
	}
	if c.JSON {
		b, err := json.Marshal(x)
		y := &flowsupport.Interceptor{}
		if err == nil {
			err = json.Unmarshal(b, y)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		return y
	}
	return x
}

// verdicts notes the results of the assertions, and tells if the expression of one has a value
func (ic *Icept) verdicts(typ int, env Env) bool {
	ok := false
	for i, e := range ic.Asserts {
		if ic.Type != typ {
			ic.res[i] = resAssertNone
			continue
		}
		if e == nil {
			ic.res[i] = resNone
			continue
		}
		v, ee := e.Eval(env)
		b, isB := toBool(v)
		ic.res[i] = resFail
		if ee == nil {
			ok = true
			if b && isB {
				ic.res[i] = resPass
			}
			if e.Find(func(x *Expr) bool {
				v, _ := x.Eval(env)
				_, any := v.(Any)
				return any
			}) {
				ic.res[i] = -1 // the code of such an error is not specified
			}
		}
	}
	return ok
}

// hooks has the model do what the interceptor does
func (c *C12Case) hooks(m *Model) {
	tasks := map[string][]*Icept{}
	for _, ic := range c.Icepts {
		ic.status = map[int]bool{resNone: true}
		ic.res = make([]int, len(ic.Asserts))
		ic.msg = ""
		ic.evals = 0
		tasks[ic.Task] = append(tasks[ic.Task], ic)
	}
	by := func(ti *TI) []*Icept {
		var r []*Icept
		for _, ic := range tasks[ti.t.ID] {
			if ic.Flow == ti.c.fi {
				r = append(r, ic)
			}
		}
		return r
	}
	get := func(ti *TI) *Icept {
		for _, ic := range by(ti) {
			if !ic.Plain {
				return ic
			}
		}
		return nil
	}
	m.override = func(ti *TI) map[string]interface{} {
		r := map[string]interface{}{}
		for _, ic := range by(ti) {
			if ic.Plain {
				for k, v := range ic.InWant {
					r[k] = v
				}
			}
		}
		if ic := get(ti); ic != nil {
			for k, v := range ic.InWant {
				r[k] = v
			}
		}
		return r
	}
	m.intercept = func(ti *TI) *Mock {
		ic := get(ti)
		for _, x := range by(ti) {
			if x.Skip {
				m.feat["skip-task"]++
				return &Mock{}
			}
		}
		if ic == nil {
			panic("harness: no interceptor of " + ti.t.ID)
		}
		ic.status = map[int]bool{resMocked: true}
		switch {
		case ic.Type == icMockErr:
			m.feat["mock-error"]++
			return &Mock{Failed: true, Err: ic.Msg}
		case ic.OutBad:
			m.feat["mock-bad-output"]++
			ic.status[resFail] = true
			return &Mock{Failed: true}
		case ic.Type == icMock:
			m.feat["mock"]++
			return &Mock{Out: ic.OutWant}
		}
		m.feat["skip-execution"]++
		return &Mock{}
	}
	m.overlay = func(ti *TI, outs map[string]interface{}) map[string]interface{} {
		if ic := get(ti); ic != nil && ic.Type == icMock && !ic.SkipExec {
			outs = copyMap(outs)
			if outs == nil {
				outs = map[string]interface{}{}
			}
			for k, v := range ic.OutWant {
				outs[k] = v
			}
			m.feat["outputs-replaced"]++
		}
		return outs
	}
	m.onExec = func(ti *TI, ev *ErrVal) {
		ic := get(ti)
		if ic == nil {
			return
		}
		ic.evals++
		was := ic.status
		if ti.t.Sub > 0 && ti.c.flow.rec != "" {
			// executions within one another: it is not specified which one is told
			defer func() {
				for k := range was {
					ic.status[k] = true
				}
			}()
		}
		env := tenv{ti.c, nil}
		if ev == nil {
			if !ic.SkipExec && !ic.Skip {
				ic.status = map[int]bool{resPass: true}
			}
			ic.verdicts(icAssert, env)
			m.feat["assertions"] += len(ic.Asserts)
			return
		}
		ic.status = map[int]bool{resFail: true}
		ic.msg = ev.Tok
		at := ti.c.attrs
		e1, e2 := at["_E"], at["_E."+ti.t.ID]
		at["_E."+ti.t.ID] = ev.obj()
		if !ti.c.handling {
			at["_E"] = ev.obj()
		}
		ic.verdicts(icAssertErr, env)
		m.feat["exception-assertions"] += len(ic.Asserts)
		put := func(k string, v interface{}) {
			if v == nil {
				delete(at, k)
			} else {
				at[k] = v
			}
		}
		put("_E", e1)
		put("_E."+ti.t.ID, e2)
	}
	m.onFact = func(f *Fact) {
		if f.Kind == "mapfail" {
			if ic := get(f.TI); ic != nil {
				ic.status[resFail] = true
				ic.status[resNone] = true
			}
		}
	}
	m.wantNil = func() bool {
		for _, ic := range tasks["_flowOutput"] {
			if ic.verdicts(icAssertErr, tenv{m.root, nil}) {
				return true
			}
		}
		return false
	}
}

func runC12(cx *Cx) *Outcome {
	s := cx.S
	conc := strings.HasPrefix(cx.Var.Name, "concurrent")
	c := genC12(s, conc)
	o := &Outcome{Case: c}
	l, err := load(c.Case)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	x := c.build()
	ro := &instance.RunOptions{Op: instance.OpStart, ExecOptions: &instance.ExecOptions{Interceptor: x}}
	opt := &RunOpts{Conc: conc, RO: ro, Prepare: func(r *Run) { c.hooks(r.M) }}
	if conc {
		if s.P(80) {
			opt.Choices = s.N
		} else {
			opt.Sleep = true
		}
	}
	r, err := l.exec(opt)
	if err == errTimeout {
		o.Hang = true
	}
	m := r.M
	m.mu.Lock()
	defer m.mu.Unlock()
	ended := false
	for _, k := range m.all {
		ended = ended || k.status != csCompleted
	}
	if m.viol == "" && !(conc && (ended || m.feat["abandoned-work"]+m.feat["error-handler"] > 0 || m.root.status != csCompleted || m.feat["explicit-return"] > 0)) {
		c.check(m, x)
	}
	o.Viol = m.viol
	o.Hist = append([]string{}, m.hist...)
	o.Feat = merge(nil, m.feat)
	o.Feat["executions"] += m.execs
	f := m.feat
	o.Non = f["mock"]+f["mock-error"]+f["skip-execution"]+f["skip-task"]+f["outputs-replaced"] > 0 || f["assertions"]+f["exception-assertions"] > 0
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !conc {
		o.Viol = "after the run had ended: " + orph[0]
	}
	return o
}

func (c *C12Case) check(m *Model, x *flowsupport.Interceptor) {
	if len(x.TaskInterceptors) != len(c.Icepts) {
		m.fail("the interceptor has %d tasks after the run, want %d", len(x.TaskInterceptors), len(c.Icepts))
		return
	}
	for i, ic := range c.Icepts {
		e := x.TaskInterceptors[i]
		if ic.evals > 1 && m.conc {
			continue // it is not known which was the last one
		}
		if ic.Task == "_flowOutput" {
			if m.root.status == csCompleted {
				env := tenv{m.root, nil}
				for k, v := range m.root.outs {
					m.root.attrs[k] = v
				}
				ic.verdicts(icAssert, env)
			}
			if m.feat["reply"] > 0 {
				continue
			}
		} else if !ic.status[e.Result] {
			m.fail("the execution status of task %s is %d, want %v", c.id(ic), e.Result, ic.status)
			return
		} else if e.Result == resFail && !strings.Contains(e.Message, ic.msg) {
			m.fail("the message of failed task %s is %q, want one about %q", c.id(ic), e.Message, ic.msg)
			return
		}
		for j, a := range e.Assertions {
			if ic.res[j] < 0 && (a.Result == resPass || a.Result == resFail) {
				continue
			}
			if a.Result != ic.res[j] {
				m.fail("assertion %d (%v) of %s has result %d (%s), want %d", j, a.Expression, c.id(ic), a.Result, a.Message, ic.res[j])
				return
			}
		}
	}
	c.coverage(m, x)
}

func (c *C12Case) coverage(m *Model, x *flowsupport.Interceptor) {
	cov := x.Coverage
	if cov == nil {
		if len(m.facts) > 2 {
			m.fail("there is no coverage")
		}
		return
	}
	lenient := map[string]bool{}
	var want, got []string
	main := func(b bool) string {
		if b {
			return "main"
		}
		return "handler"
	}
	type lf struct{ in, out *Fact }
	last := map[string]*lf{}
	get := func(f *Fact) *lf {
		k := f.Pid + "/" + f.Task
		if last[k] == nil {
			last[k] = &lf{}
		}
		return last[k]
	}
	ioOf := map[string][]*lf{}
	failed := map[string]string{}
	for i := range m.facts {
		f := &m.facts[i]
		switch f.Kind {
		case "begin", "mock":
			get(f).in, get(f).out = f, nil
		case "exec":
			get(f).out = f
		case "done", "condfail", "fail":
			k := fmt.Sprintf("%s of %s (%s)", f.Task, f.C.flow.Name, main(!f.H))
			if get(f).in == nil {
				// no execution: empty loops, failing settings or mappings
				lenient[k] = true
			}
			ioOf[k] = append(ioOf[k], get(f))
			if f.Kind == "fail" {
				failed[k] = f.Info
			}
			want = append(want, k)
		}
	}
	for _, a := range cov.ActivityCoverage {
		k := fmt.Sprintf("%s of %s (%s)", a.ActivityName, a.FlowName, main(a.IsMainFlow))
		got = append(got, k)
	}
	if !sameBag(m, "activity", want, got, lenient) {
		return
	}
	want, got = nil, nil
	for _, k := range m.all {
		if k.host != nil {
			want = append(want, fmt.Sprintf("%s called by %q of %s", k.flow.Name, k.host.t.Name, k.parent.flow.Name))
		}
	}
	for _, a := range cov.SubFlowCoverage {
		got = append(got, fmt.Sprintf("%s called by %q of %s", a.SubFlowName, a.SubFlowActivity, a.HostFlow))
	}
	if !sameBag(m, "subflow", want, got, nil) {
		return
	}
	want, got, lenient = nil, nil, map[string]bool{}
	key := func(from, to, typ, val, lbl, flow string, mn bool) string {
		return fmt.Sprintf("%s->%s %s [%s] %q of %s (%s)", from, to, typ, val, lbl, flow, main(mn))
	}
	types := map[string]string{"expr": "Expression", "label": "Label", "error": "Error", "other": "Otherwise", "dep": ""}
	lk := func(l *Link, flow string, mn bool) string {
		v := ""
		if l.Cond != nil {
			v = l.Cond.Text()
		}
		return key(l.From, l.To, types[l.Type], v, l.Label, flow, mn)
	}
	for i := range m.facts {
		f := &m.facts[i]
		switch f.Kind {
		case "link":
			k := lk(f.L, f.C.flow.Name, !f.H)
			want = append(want, k)
			if get(&Fact{Pid: f.Pid, Task: f.L.From}).in == nil {
				lenient[k] = true // of an empty loop, say
			}
		case "condfail", "done":
			if f.Kind == "condfail" || f.C.forced {
				for _, l := range outgoing(f.TI.g, f.Task) {
					lenient[lk(l, f.C.flow.Name, !f.H)] = true
				}
			}
		}
	}
	for _, a := range cov.TransitionCoverage {
		got = append(got, key(a.TransitionFrom, a.TransitionTo, a.TransitionType, a.TransitionExpression, a.TransitionName, a.FlowName, a.IsMainFlow))
	}
	if !sameBag(m, "link", want, got, lenient) {
		return
	}
	if !c.IO || m.conc {
		return
	}
	for _, a := range cov.ActivityCoverage {
		k := fmt.Sprintf("%s of %s (%s)", a.ActivityName, a.FlowName, main(a.IsMainFlow))
		var f *Flow
		for _, y := range c.Flows {
			if y.Name == a.FlowName {
				f = y
			}
		}
		g := f.G
		if g.task(a.ActivityName) == nil {
			g = f.EH
		}
		lbls := func(ls []*Link) []string {
			r := []string{}
			for _, l := range ls {
				r = append(r, l.Label)
			}
			sort.Strings(r)
			return r
		}
		gl := func(ls []string) []string {
			r := append([]string{}, ls...)
			sort.Strings(r)
			return r
		}
		if w, h := lbls(incoming(g, a.ActivityName)), gl(a.LinkFrom); fmt.Sprint(w) != fmt.Sprint(h) {
			m.fail("coverage of %s lists incoming links %v, want %v", k, h, w)
			return
		}
		if w, h := lbls(outgoing(g, a.ActivityName)), gl(a.LinkTo); fmt.Sprint(w) != fmt.Sprint(h) {
			m.fail("coverage of %s lists outgoing links %v, want %v", k, h, w)
			return
		}
		if len(ioOf[k]) != 1 || ioOf[k][0].in == nil {
			continue // executed several times
		}
		t := g.task(a.ActivityName)
		io := ioOf[k][0]
		if tok, ok := failed[k]; ok {
			if a.Error == nil || !strings.Contains(fmt.Sprint(a.Error["message"]), tok) {
				m.fail("coverage of %s has error %s, want one about %q", k, show2(a.Error), tok)
				return
			}
		} else if a.Error != nil {
			m.fail("coverage of %s has error %s", k, show2(a.Error))
			return
		}
		for _, n := range sortedKeys(io.in.In) {
			if t.Sub > 0 && (n == "pid" || param(c.Flows[t.Sub-1].In, n) == nil) || m.feat["mapping-failure"] > 0 {
				continue
			}
			v, ok := a.Inputs[n]
			if !ok && io.in.In[n] != nil || !match(io.in.In[n], v) {
				m.fail("coverage of %s has input %s = %s, want %s", k, n, show(v), show(io.in.In[n]))
				return
			}
		}
		if io.out != nil {
			for _, n := range sortedKeys(io.out.Out) {
				if v := a.Outputs[n]; !match(io.out.Out[n], v) {
					m.fail("coverage of %s has output %s = %s, want %s", k, n, show(v), show(io.out.Out[n]))
					return
				}
			}
		}
	}
}

func sameBag(m *Model, what string, want, got []string, lenient map[string]bool) bool {
	n := map[string]int{}
	for _, k := range want {
		n[k]++
	}
	for _, k := range got {
		n[k]--
	}
	for _, k := range sortedKeys(n) {
		if n[k] != 0 && !lenient[k] {
			if n[k] > 0 {
				m.fail("coverage lacks %s %s", what, k)
			} else {
				m.fail("coverage lists %s %s, which was not executed (that often)", what, k)
			}
			return false
		}
	}
	return true
}

func init() {
	register(&Prop{ID: "C12", Quick: 60000, Thorough: 1200000, Run: runC12,
		Variants: []Variant{seqVar, {Name: "sequential-2"}, {Name: "sequential-3"}, concVar, raceConcVar},
		Rule:     "Flows as for C02 with an interceptor of up to one entry per task: outputs, an error or nothing instead of the execution, overridden inputs or outputs, assertions of both kinds on tasks and on the flow; non-trivial: a task was mocked, or an assertion belonged to an executed task",
	})
}
