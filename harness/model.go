package main

import (
	"fmt"
	"strings"
	"sync"
	"time"
)

// The reference model: an interpreter of flows that does not schedule anything
// itself but is driven by what is observed (activities that begin and end,
// results) and accepts every order of execution that the links allow.

type TState int

const (
	tsEnabled TState = iota + 1
	tsRunning
	tsSub
	tsDone
	tsSkipped
	tsFailed
)

type CState int

const (
	csActive CState = iota
	csCompleted
	csFailed
	csDead
)

type item struct{ k, v interface{} }

// TI is a task instance of the model
type TI struct {
	c     *Cont
	g     *Graph
	t     *Task
	state TState
	n     int // executions begun
	subN  int

	iterInit bool
	items    []item
	idx      int
	used     map[int]bool
	cur      item

	retryInit bool
	retryLeft int
	retrying  bool

	post bool // its flow has ended, the activity has not been told
	pout map[string]interface{}
	pev  *ErrVal

	begun time.Time // when the last execution began
	gap   int       // the time (in ms) that has to pass from then to the next one

	started bool // a mapping of the current execution has been seen
	inputs  map[string]interface{}
	beh     Beh
	child   *Cont
}

// ErrVal is a failure of a task
type ErrVal struct {
	Tok      string
	Names    []interface{}
	Code     interface{}
	Data     interface{}
	Activity bool // raised by an activity as activity error
	Retri    bool
}

func (e *ErrVal) obj() map[string]interface{} {
	return map[string]interface{}{"message": Contains{e.Tok}, "activity": OneOf{e.Names}, "code": e.Code, "data": e.Data, "type": Any{}}
}

// Cont is a running flow of the model
type Cont struct {
	m        *Model
	pid      string
	flow     *Flow
	fi       int
	parent   *Cont
	host     *TI
	ordinal  int
	handling bool
	status   CState
	attrs    map[string]interface{}
	ti       map[string]*TI
	links    map[*Link]int
	forced   bool
	ret      map[string]interface{}
	retErr   string
	id       *Sym
	epoch    int
	shadow   *Cont // concurrent mode: what was abandoned but may still be under way
	isShadow bool
	outs     map[string]interface{}
	ev       *ErrVal
	kids     []*Cont
	order    int
	in       map[string]interface{} // the attributes it started with
}

// Fact is something that happened in a run
type Fact struct {
	Kind string // begin end mapfail skip done fail start complete failed
	Pid  string
	Task string
	N    int
	Info string
	In   map[string]interface{}
	Out  map[string]interface{}
	TI   *TI
	C    *Cont
	T    time.Time
	H    bool  // the error handler of the flow was active
	L    *Link // the link that was followed
}

// Model is the model of one run
type Model struct {
	caseNo int
	mu     sync.Mutex
	cs     *Case
	conc   bool
	// the id of the run was chosen by the caller
	givenID bool
	pid     string
	conts   map[string]*Cont
	all     []*Cont
	root    *Cont
	viol    string
	hist    []string
	facts   []Fact
	steps   int
	execs   int
	feat    map[string]int
	done    int
	res     []Res
	replyN  int
	over    bool
	// a detached run of another flow than the first
	fi       int
	in       map[string]interface{}
	onDetach func(ti *TI, fi int, in map[string]interface{}) string
	// hooks of single properties
	onBegin func(ti *TI)
	onFact  func(f *Fact)
	// interceptors
	intercept func(ti *TI) *Mock
	override  func(ti *TI) map[string]interface{}
	overlay   func(ti *TI, outs map[string]interface{}) map[string]interface{}
	onExec    func(ti *TI, ev *ErrVal) // an execution succeeded, or failed
	wantNil   func() bool              // the failure of the run is to be reported as success without data
}

// Mock is what an interceptor does to a task
type Mock struct {
	Out    map[string]interface{}
	Failed bool
	Err    string
}

type Res struct {
	Data map[string]interface{}
	Err  error
	Set  bool
}

func NewModel(cs *Case, pid string, conc bool) *Model {
	m := &Model{cs: cs, pid: pid, conc: conc, conts: map[string]*Cont{}, feat: map[string]int{}}
	return m
}

func (m *Model) fail(format string, a ...interface{}) {
	if m.viol == "" {
		m.viol = fmt.Sprintf(format, a...)
		m.hist = append(m.hist, "!! "+m.viol)
	}
}

func (m *Model) note(format string, a ...interface{}) {
	if len(m.hist) < 2000 {
		m.hist = append(m.hist, fmt.Sprintf(format, a...))
	}
}

func (m *Model) fact(f Fact) {
	f.T = time.Now()
	f.H = f.C != nil && f.C.handling
	m.facts = append(m.facts, f)
	if m.onFact != nil {
		m.onFact(&m.facts[len(m.facts)-1])
	}
}

func (m *Model) newCont(fi int, pid string, parent *Cont, host *TI, ordinal int, in map[string]interface{}) *Cont {
	f := m.cs.Flows[fi]
	c := &Cont{m: m, pid: pid, flow: f, fi: fi, parent: parent, host: host, ordinal: ordinal,
		attrs: map[string]interface{}{}, ti: map[string]*TI{}, links: map[*Link]int{}, id: &Sym{}, order: len(m.all)}
	m.all = append(m.all, c)
	for _, p := range f.In {
		c.attrs[p.Name] = p.Value
	}
	for k, v := range in {
		c.attrs[k] = v
	}
	c.attrs["pid"] = pid
	c.in = copyMap(c.attrs)
	m.conts[pid] = c
	if parent != nil {
		parent.kids = append(parent.kids, c)
	}
	m.fact(Fact{Kind: "start", Pid: pid, C: c})
	return c
}

// Start is called before the run is started
func (m *Model) Start() {
	in := m.cs.In
	if m.fi > 0 {
		in = m.in
	}
	m.root = m.newCont(m.fi, m.pid, nil, nil, 0, in)
	m.startCont(m.root)
}

func (m *Model) startCont(c *Cont) {
	c.enterLeading(c.flow.G)
	c.check()
}

func (c *Cont) enterLeading(g *Graph) {
	ep := c.epoch
	for _, t := range g.Tasks {
		if len(incoming(g, t.ID)) == 0 {
			c.enable(g, t)
			if c.epoch != ep || c.status != csActive {
				return
			}
		}
	}
}

func incoming(g *Graph, id string) []*Link {
	var r []*Link
	for _, l := range g.Links {
		if l.To == id {
			r = append(r, l)
		}
	}
	return r
}

func outgoing(g *Graph, id string) []*Link {
	var r []*Link
	for _, l := range g.Links {
		if l.From == id {
			r = append(r, l)
		}
	}
	return r
}

func (t *Task) names() []interface{} {
	n := []interface{}{t.ID}
	if t.Name != "" {
		n = append(n, t.Name)
	}
	return n
}

func (c *Cont) newErr(t *Task, tok string) *ErrVal {
	return &ErrVal{Tok: tok, Names: t.names(), Code: Any{}, Data: Any{}}
}

// ---- environment of expressions

type tenv struct {
	c  *Cont
	ti *TI
}

func (e tenv) Flow(name string) (interface{}, bool) { v, ok := e.c.attrs[name]; return v, ok }
func (e tenv) Act(t, o string) (interface{}, bool) {
	v, ok := e.c.attrs["_A."+t+"."+o]
	return v, ok
}
func (e tenv) Acc(t string) (interface{}, bool) { v, ok := e.c.attrs["_A."+t]; return v, ok }
func (e tenv) Err(t, f string) (interface{}, bool) {
	k := "_E"
	if t != "" {
		k = "_E." + t
	}
	v, ok := e.c.attrs[k].(map[string]interface{})
	if !ok {
		return nil, false
	}
	if f == "" {
		return v, true
	}
	x, ok := v[f]
	return x, ok
}
func (e tenv) Ctx(n string) (interface{}, bool) {
	switch n {
	case "FlowName":
		return e.c.flow.Name, true
	case "AppName":
		return appVar("FLOGO_APP_NAME"), true
	case "AppVersion":
		return appVar("FLOGO_APP_VERSION"), true
	case "FlowId":
		return e.c.id, true
	case "ParentFlowName":
		if e.c.parent != nil {
			return e.c.parent.flow.Name, true
		}
		return "", true
	case "ParentFlowId":
		if e.c.parent != nil {
			return e.c.parent.id, true
		}
		return "", true
	case "TraceId", "SpanId":
		return Any{}, true
	}
	return nil, false
}
func (e tenv) Iter(n string) (interface{}, bool) {
	if e.ti == nil || e.ti.t.Loop == nil {
		return nil, false
	}
	if e.ti.t.Loop.Kind == "dowhile" {
		if n == "index" {
			return e.ti.idx, true
		}
		return nil, false
	}
	switch n {
	case "key":
		return e.ti.cur.k, true
	case "value":
		return e.ti.cur.v, true
	case "index":
		return e.ti.idx, true
	}
	return nil, false
}

// ---- transitions

func (c *Cont) enable(g *Graph, t *Task) {
	m := c.m
	if old := c.ti[t.ID]; old != nil {
		m.fail("model: task %s enabled twice", t.ID)
		return
	}
	ti := &TI{c: c, g: g, t: t, state: tsEnabled}
	c.ti[t.ID] = ti
	m.fact(Fact{Kind: "enable", Pid: c.pid, Task: t.ID, TI: ti, C: c})
	if t.SetFail != nil {
		_, ee := t.SetFail.Eval(tenv{c, nil})
		if ee != nil {
			m.feat["settings-failure"]++
			m.note("   settings of %s/%s fail", c.pid, t.ID)
			c.taskFailed(ti, c.newErr(t, ee.Tok))
			return
		}
	}
	if t.Loop != nil && t.Loop.Kind == "iter" && !usesProbe(t.Loop.On) {
		if !ti.initIter() {
			return
		}
		if len(ti.items) == 0 {
			m.feat["empty-loop"]++
			m.steps++
			c.taskDone(ti, nil)
		}
	}
}

func usesProbe(e *Expr) bool {
	return e.Find(func(x *Expr) bool { return x.K == "fn" && x.Name == "probe" })
}

// initIter evaluates what is iterated over
func (ti *TI) initIter() bool {
	l := ti.t.Loop
	ti.iterInit = true
	var v interface{} = l.OnLit
	if l.On != nil {
		var ee *EvalErr
		v, ee = l.On.Eval(tenv{ti.c, ti})
		if ee != nil {
			ti.c.taskFailed(ti, ti.c.newErr(ti.t, ee.Tok))
			return false
		}
	}
	switch t := v.(type) {
	case nil:
	case string:
		var n int
		if _, err := fmt.Sscanf(t, "%d", &n); err != nil {
			ti.c.taskFailed(ti, ti.c.newErr(ti.t, ""))
			return false
		}
		for i := 0; i < n; i++ {
			ti.items = append(ti.items, item{i, i})
		}
	case map[string]interface{}:
		for _, k := range sortedKeys(t) {
			ti.items = append(ti.items, item{k, t[k]})
		}
		ti.used = map[int]bool{}
	case []interface{}:
		for i, x := range t {
			ti.items = append(ti.items, item{i, x})
		}
	default:
		n, ok := num(v)
		if !ok {
			ti.c.taskFailed(ti, ti.c.newErr(ti.t, ""))
			return false
		}
		for i := 0; i < int(n); i++ {
			ti.items = append(ti.items, item{i, i})
		}
	}
	return true
}

// resolve sets the links and enters or skips the tasks they lead to
func (c *Cont) resolve(g *Graph, ls []*Link, val []bool) {
	ep := c.epoch
	for i, l := range ls {
		if val[i] {
			c.links[l] = 1
			c.m.fact(Fact{Kind: "link", Pid: c.pid, Task: l.From, C: c, L: l})
		} else {
			c.links[l] = 2
		}
	}
	seen := map[string]bool{}
	for _, l := range ls {
		if seen[l.To] || c.ti[l.To] != nil {
			continue
		}
		seen[l.To] = true
		ready, any := true, false
		for _, x := range incoming(g, l.To) {
			switch c.links[x] {
			case 0:
				ready = false
			case 1:
				any = true
			}
		}
		if !ready {
			continue
		}
		t := g.task(l.To)
		if any {
			c.enable(g, t)
		} else {
			ti := &TI{c: c, g: g, t: t, state: tsSkipped}
			c.ti[t.ID] = ti
			c.m.feat["skipped"]++
			c.m.fact(Fact{Kind: "skip", Pid: c.pid, Task: t.ID, TI: ti, C: c})
			o := outgoing(g, t.ID)
			c.resolve(g, o, make([]bool, len(o)))
		}
		if c.epoch != ep || c.status != csActive {
			return
		}
	}
}

func (c *Cont) taskDone(ti *TI, outs map[string]interface{}) {
	ti.state = tsDone
	m := c.m
	ls := outgoing(ti.g, ti.t.ID)
	val := make([]bool, len(ls))
	other, hasExpr, followed := -1, false, false
	for i, l := range ls {
		switch l.Type {
		case "dep", "label":
			val[i] = true
		case "other":
			other = i
		case "expr":
			hasExpr = true
			v, ee := l.Cond.Eval(tenv{c, nil})
			if ee == nil {
				b, ok := toBool(v)
				if !ok {
					ee = &EvalErr{}
				} else if b {
					val[i] = true
					followed = true
				}
			}
			if ee != nil {
				m.feat["condition-failure"]++
				m.note("   condition %s->%s of %s fails", l.From, l.To, c.pid)
				m.fact(Fact{Kind: "condfail", Pid: c.pid, Task: ti.t.ID, TI: ti, C: c})
				c.flowError(c.newErr(ti.t, ee.Tok), ti)
				return
			}
		}
	}
	m.fact(Fact{Kind: "done", Pid: c.pid, Task: ti.t.ID, TI: ti, C: c, Out: outs})
	if other >= 0 && hasExpr && !followed {
		val[other] = true
		m.feat["otherwise"]++
	}
	for i, l := range ls {
		if !val[i] {
			m.feat["link-not-followed"]++
		} else if l.Type == "expr" {
			m.feat["cond-followed"]++
		}
	}
	if c.forced {
		c.complete()
		return
	}
	c.resolve(ti.g, ls, val)
}

func toBool(v interface{}) (bool, bool) {
	switch t := v.(type) {
	case bool:
		return t, true
	case string:
		switch t {
		case "true", "1", "t", "T", "TRUE", "True":
			return true, true
		case "false", "0", "f", "F", "FALSE", "False", "":
			return false, true
		}
		return false, false
	}
	if n, ok := num(v); ok {
		return n != 0, true
	}
	return false, false
}

func (c *Cont) taskFailed(ti *TI, ev *ErrVal) {
	m := c.m
	ti.state = tsFailed
	m.fact(Fact{Kind: "fail", Pid: c.pid, Task: ti.t.ID, TI: ti, C: c, Info: ev.Tok})
	ls := outgoing(ti.g, ti.t.ID)
	has := false
	for _, l := range ls {
		if l.Type == "error" {
			has = true
		}
	}
	c.attrs["_E."+ti.t.ID] = ev.obj()
	if !has {
		c.flowError(ev, ti)
		return
	}
	m.feat["error-link"]++
	val := make([]bool, len(ls))
	for i, l := range ls {
		val[i] = l.Type == "error"
	}
	c.resolve(ti.g, ls, val)
}

func (c *Cont) flowError(ev *ErrVal, by *TI) {
	m := c.m
	if by != nil {
		c.attrs["_E."+by.t.ID] = ev.obj()
	}
	if c.isShadow {
		c.status = csDead
		return
	}
	c.attrs["_E"] = ev.obj()
	if c.handling {
		m.feat["failure-in-handler"]++
		c.failed(ev)
		return
	}
	c.handling = true
	if c.flow.EH == nil || len(c.flow.EH.Tasks) == 0 {
		c.failed(ev)
		return
	}
	m.feat["error-handler"]++
	m.note("   error handler of %s", c.pid)
	c.abandon()
	c.enterLeading(c.flow.EH)
}

// abandon drops everything that is under way in the flow
func (c *Cont) abandon() {
	c.epoch++
	under := false
	for _, ti := range c.ti {
		if ti.state == tsEnabled || ti.state == tsRunning || ti.state == tsSub {
			under = true
		}
	}
	if under {
		c.m.feat["abandoned-work"]++
	}
	if c.m.conc && under {
		sh := &Cont{m: c.m, pid: c.pid, flow: c.flow, fi: c.fi, parent: c.parent, host: nil, ordinal: c.ordinal, handling: c.handling,
			attrs: c.attrs, ti: c.ti, links: c.links, id: c.id, isShadow: true, shadow: c.shadow}
		for _, ti := range sh.ti {
			ti.c = sh
			if ti.child != nil {
				ti.child.parent = sh
			}
		}
		c.shadow = sh
		c.links = map[*Link]int{}
		for l, v := range sh.links {
			c.links[l] = v
		}
	} else {
		for _, ti := range c.ti {
			if ti.state == tsSub && ti.child != nil {
				ti.child.kill()
			}
		}
	}
	c.ti = map[string]*TI{}
}

func (c *Cont) kill() {
	if c.status != csActive {
		return
	}
	c.status = csDead
	c.m.fact(Fact{Kind: "killed", Pid: c.pid, C: c})
	for _, ti := range c.ti {
		if ti.state == tsSub && ti.child != nil {
			ti.child.kill()
		}
	}
}

func (c *Cont) failed(ev *ErrVal) {
	if c.status != csActive {
		return
	}
	c.abandon()
	c.status = csFailed
	c.ev = ev
	c.m.note("   flow %s failed (%s)", c.pid, ev.Tok)
	c.m.fact(Fact{Kind: "failed", Pid: c.pid, C: c, Info: ev.Tok})
	if c.host != nil {
		c.host.subEnded(nil, ev)
	}
}

func (c *Cont) complete() {
	if c.status != csActive {
		return
	}
	if c.isShadow {
		c.status = csDead
		return
	}
	if c.forced {
		c.outs = c.ret
		c.m.feat["explicit-return"]++
	} else {
		c.outs = map[string]interface{}{}
		for _, p := range c.flow.Out {
			if v, ok := c.attrs[p.Name]; ok {
				c.outs[p.Name] = v
			} else if v := p.dflt(); v != nil {
				c.outs[p.Name] = v
			}
		}
	}
	c.abandon()
	c.status = csCompleted
	c.m.note("   flow %s completed", c.pid)
	c.m.fact(Fact{Kind: "complete", Pid: c.pid, C: c, Out: c.outs})
	if c.host != nil {
		o := map[string]interface{}{}
		for _, p := range c.flow.Out {
			if v, ok := c.outs[p.Name]; ok {
				o[p.Name] = v
			}
		}
		c.host.subEnded(o, nil)
	}
}

// check completes the flow if nothing is left to do
func (c *Cont) check() {
	if c.status != csActive {
		return
	}
	for _, ti := range c.ti {
		if ti.state == tsEnabled || ti.state == tsRunning || ti.state == tsSub {
			return
		}
	}
	c.complete()
}

// subEnded: the flow called by the task has ended
func (ti *TI) subEnded(outs map[string]interface{}, ev *ErrVal) {
	c := ti.c
	if c.status == csDead || c.status != csActive {
		return
	}
	ti.child = nil
	if ti.t.Async && !ti.post {
		ti.post, ti.pout, ti.pev = true, outs, ev
		return
	}
	c.m.steps++
	if ev == nil {
		ti.succeeded(outs)
	} else {
		e2 := *ev
		e2.Names = append(append([]interface{}{}, ev.Names...), ti.t.names()...)
		if c.m.onExec != nil {
			c.m.onExec(ti, &e2)
		}
		ti.failedExec(&e2)
	}
	c.check()
}

// PostEval: the activity that called the flow is told that it has ended
func (m *Model) PostEval(pid string) (Beh, string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	beh := Beh{Kind: "ok"}
	if m.viol != "" {
		return beh, ""
	}
	m.note("post %s", pid)
	if m.over && !m.conc {
		m.fail("the caller of %s is told of its end after the run was reported to be done", pid)
		return beh, ""
	}
	c := m.conts[pid]
	if c == nil || c.host == nil {
		m.fail("the caller of an unknown flow run %q is told of its end", pid)
		return beh, ""
	}
	ti := c.host
	if !ti.post {
		m.fail("task %s of %s is told of the end of its flow %s which has not ended (or is told again)", ti.t.ID, ti.c.pid, pid)
		return beh, ""
	}
	return ti.postEval()
}

func (ti *TI) postEval() (Beh, string) {
	c, t := ti.c, ti.t
	m := c.m
	m.feat["told"]++
	beh := Beh{Kind: "ok"}
	if n := ti.n - 1; n < len(t.Script) && !(t.FirstOnly && c.ordinal > 0) {
		beh = t.Script[n]
	}
	outs, ev := ti.pout, ti.pev
	if beh.Kind != "ok" {
		outs, ev = nil, ti.scriptErr(beh)
		m.feat["told-fails"]++
	}
	ti.subEnded(outs, ev)
	ti.post = false
	return beh, ti.tok(beh)
}

// succeeded: one execution of the task succeeded
func (ti *TI) succeeded(outs map[string]interface{}) {
	c := ti.c
	m := c.m
	l := ti.t.Loop
	id := ti.t.ID
	ti.retrying = false
	ti.retryInit = false
	if ev := ti.badData(ti.t.OutSch, outs); ev != nil {
		m.note("   an output of %s/%s is not valid", c.pid, id)
		if m.onExec != nil {
			m.onExec(ti, ev)
		}
		ti.failedExec(ev)
		return
	}
	if m.overlay != nil {
		outs = m.overlay(ti, outs)
	}
	m.fact(Fact{Kind: "exec", Pid: c.pid, Task: id, N: ti.n - 1, TI: ti, C: c, Out: outs})
	if l != nil && l.Acc {
		cp := map[string]interface{}{}
		for k, v := range outs {
			cp[k] = v
		}
		old, _ := c.attrs["_A."+id].([]interface{})
		c.attrs["_A."+id] = append(append([]interface{}{}, old...), cp)
	}
	if (l == nil || !l.Acc || l.Kind == "dowhile") && len(ti.t.OMaps) == 0 {
		for k, v := range outs {
			c.attrs["_A."+id+"."+k] = v
		}
	}
	if len(ti.t.OMaps) > 0 {
		m.feat["patched-output"]++
		for _, o := range ti.t.OMaps {
			if _, ok := outs[o.Ref]; o.Ref != "" && !ok {
				m.feat["patched-output-fails"]++
				ti.failedExec(c.newErr(ti.t, ""))
				return
			}
		}
		for _, o := range ti.t.OMaps {
			v := o.Lit
			if o.Ref != "" {
				v = outs[o.Ref]
			}
			c.attrs[o.Name] = v
		}
	}
	if m.onExec != nil {
		m.onExec(ti, nil)
	}
	if l == nil {
		c.taskDone(ti, outs)
		return
	}
	if l.Kind == "iter" {
		ti.idx++
		if ti.idx < len(ti.items) {
			m.feat["iterations"]++
			ti.gap = l.Delay
			ti.state = tsEnabled
			ti.started = false
			return
		}
		m.steps++
		c.taskDone(ti, outs)
		return
	}
	v, ee := l.Cond.Eval(tenv{c, ti})
	var b, ok bool
	if ee == nil {
		b, ok = toBool(v)
		if !ok {
			ee = &EvalErr{}
		}
	}
	if ee != nil {
		m.feat["loop-condition-failure"]++
		c.taskFailed(ti, c.newErr(ti.t, ee.Tok))
		return
	}
	if b {
		m.feat["loop-repeat"]++
		ti.gap = l.Delay
		ti.idx++
		ti.state = tsEnabled
		ti.started = false
		return
	}
	c.taskDone(ti, outs)
}

// failedExec: one execution of the task failed
func (ti *TI) failedExec(ev *ErrVal) {
	c := ti.c
	m := c.m
	m.fact(Fact{Kind: "execfail", Pid: c.pid, Task: ti.t.ID, N: ti.n - 1, TI: ti, C: c, Info: ev.Tok})
	if ev.Activity && ev.Retri && ti.t.Retry != nil {
		if !ti.retryInit {
			ti.retryInit = true
			ti.retryLeft = ti.t.Retry.Count
			if e := ti.t.Retry.CountE; e != nil {
				v, ee := e.Eval(tenv{c, ti})
				if ee != nil {
					c.taskFailed(ti, c.newErr(ti.t, ee.Tok))
					return
				}
				n, ok := num(v)
				if !ok {
					c.taskFailed(ti, c.newErr(ti.t, ""))
					return
				}
				ti.retryLeft = int(n)
			}
			if e := ti.t.Retry.IntervE; e != nil {
				if _, ee := e.Eval(tenv{c, ti}); ee != nil {
					c.taskFailed(ti, c.newErr(ti.t, ee.Tok))
					return
				}
			}
		}
		if ti.retryLeft > 0 {
			ti.retryLeft--
			ti.state = tsEnabled
			ti.started = false
			ti.retrying = true
			if ti.t.Retry.IntervE == nil {
				ti.gap = ti.t.Retry.Interval
			}
			m.feat["retry"]++
			return
		}
		m.feat["retries-exhausted"]++
	}
	c.taskFailed(ti, ev)
}

// ---- observations

// find the task instance that is to begin
func (m *Model) lookup(pid, task string) *TI {
	c := m.conts[pid]
	if c == nil {
		m.fail("activity %s of an unknown flow run %q begins", task, pid)
		return nil
	}
	for x := c; x != nil; x = x.shadow {
		if ti := x.ti[task]; ti != nil && ti.state == tsEnabled && x.status == csActive {
			return ti
		}
	}
	if c.status != csActive && (c.shadow == nil) {
		m.fail("task %s begins in flow run %s which has ended", task, pid)
		return nil
	}
	if ti := c.ti[task]; ti != nil {
		st := map[TState]string{tsRunning: "is being executed", tsSub: "waits for its subflow", tsDone: "is done", tsSkipped: "was skipped", tsFailed: "has failed"}[ti.state]
		m.fail("task %s of %s begins although it already %s (execution %d)", task, pid, st, ti.n+1)
		return nil
	}
	if c.flow.G.task(task) == nil && (c.flow.EH == nil || c.flow.EH.task(task) == nil) {
		m.fail("unknown task %s begins in %s", task, pid)
		return nil
	}
	m.fail("task %s of %s begins although its flow has not reached it (or abandoned it)", task, pid)
	return nil
}

// prepare: an execution of the task starts; key is the key of an object iteration if known
func (ti *TI) prepare(key interface{}) bool {
	if ti.started {
		return true
	}
	ti.started = true
	if !ti.retrying {
		ti.c.m.steps++
	}
	l := ti.t.Loop
	if l != nil && l.Kind == "iter" {
		if !ti.iterInit {
			if !ti.initIter() {
				return false
			}
			if len(ti.items) == 0 {
				ti.c.taskDone(ti, nil)
				return false
			}
		}
		if ti.used == nil {
			ti.cur = ti.items[ti.idx]
		} else if ti.retrying {
			// same element
		} else {
			ti.cur = item{}
			for i, it := range ti.items {
				if !ti.used[i] && same(it.k, key) {
					ti.cur = it
					ti.used[i] = true
					return true
				}
			}
			ti.c.m.fail("task %s of %s iterates over key %s which is not (or no longer) to be iterated over", ti.t.ID, ti.c.pid, show(key))
			return false
		}
	}
	return true
}

// expected computes the inputs of the execution
func (ti *TI) expected() (map[string]interface{}, *EvalErr) {
	r := map[string]interface{}{}
	env := tenv{ti.c, ti}
	for _, mp := range ti.t.Maps {
		switch {
		case mp.E != nil:
			v, ee := mp.E.Eval(env)
			if ee != nil {
				return nil, ee
			}
			r[mp.Name] = v
		case mp.Obj != nil:
			o := map[string]interface{}{}
			for k, e := range mp.Obj {
				v, ee := e.Eval(env)
				if ee != nil {
					return nil, ee
				}
				o[k] = v
			}
			r[mp.Name] = o
		default:
			r[mp.Name] = mp.Want
		}
	}
	if ti.c.m.override != nil {
		for k, v := range ti.c.m.override(ti) {
			r[k] = v
		}
	}
	return r, nil
}

// Probe: a mapping of the task is being evaluated
func (m *Model) Probe(kind, pid, task string, key interface{}) interface{} {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.viol != "" {
		return ""
	}
	m.note("map %s/%s %s %v", pid, task, kind, key)
	if m.over && !m.conc {
		m.fail("task %s of %s begins after the run was reported to be done", task, pid)
		return ""
	}
	ti := m.lookup(pid, task)
	if ti == nil {
		return ""
	}
	switch kind {
	case "T": // a mapping (or loop expression) that may fail
		if !ti.prepare(key) {
			ti.c.check()
			return ""
		}
		in, ee := ti.expected()
		if ee == nil {
			if ti.t.Sub == 0 {
				ti.badInput(in)
			}
		} else {
			m.feat["mapping-failure"]++
			m.note("   mapping of %s/%s fails", pid, task)
			c := ti.c
			m.fact(Fact{Kind: "mapfail", Pid: pid, Task: task, N: ti.n, TI: ti, C: c, Info: ee.Tok})
			ti.failedExec(c.newErr(ti.t, ee.Tok))
			c.check()
		}
	case "M": // the inputs of a task that an interceptor replaces
		if !ti.prepare(key) {
			ti.c.check()
			return ""
		}
		in, ee := ti.expected()
		if ee != nil {
			m.fail("model: unexpected failure of mapping of %s/%s", ti.c.pid, ti.t.ID)
			return ""
		}
		c := ti.c
		ti.inputs = in
		ti.n++
		m.execs++
		m.fact(Fact{Kind: "mock", Pid: pid, Task: task, N: ti.n - 1, TI: ti, C: c, In: in})
		if mk := m.intercept(ti); mk.Failed {
			ev := c.newErr(ti.t, mk.Err)
			if mk.Err != "" {
				ev.Names = ev.Names[len(ev.Names)-1:] // the name, if there is one
			}
			ti.failedExec(ev)
		} else {
			ti.succeeded(copyMap(mk.Out))
		}
		c.check()
	case "S": // the caller of a subflow passes the run id
		return m.beginSub(ti, key)
	}
	return ""
}

// badInput: the inputs violate a schema
func (ti *TI) badInput(in map[string]interface{}) bool {
	ev := ti.badData(ti.t.InSch, in)
	if ev == nil {
		return false
	}
	c := ti.c
	c.m.note("   an input of %s/%s is not valid", c.pid, ti.t.ID)
	c.m.fact(Fact{Kind: "mapfail", Pid: c.pid, Task: ti.t.ID, N: ti.n, TI: ti, C: c, Info: ev.Tok})
	ti.failedExec(ev)
	c.check()
	return true
}

func (m *Model) beginSub(ti *TI, key interface{}) interface{} {
	if !ti.prepare(key) {
		return ""
	}
	in, ee := ti.expected()
	if ee != nil {
		m.fail("model: unexpected failure of mapping of %s/%s", ti.c.pid, ti.t.ID)
		return ""
	}
	if ti.badInput(in) {
		return ""
	}
	ti.inputs = in
	ti.n++
	m.execs++
	fi := ti.t.Sub - 1
	f := m.cs.Flows[fi]
	args := map[string]interface{}{}
	for _, p := range f.In {
		if v, ok := in[p.Name]; ok && v != nil {
			args[p.Name] = v
		}
	}
	if ti.t.BadURI {
		m.feat["missing-flow"]++
		c := ti.c
		ev := c.newErr(ti.t, "")
		m.fact(Fact{Kind: "begin", Pid: c.pid, Task: ti.t.ID, N: ti.n - 1, TI: ti, C: c, In: in})
		if m.onExec != nil {
			m.onExec(ti, ev)
		}
		ti.failedExec(ev)
		c.check()
		return ""
	}
	if ti.t.Detached {
		m.feat["detached"]++
		c := ti.c
		m.fact(Fact{Kind: "begin", Pid: c.pid, Task: ti.t.ID, N: ti.n - 1, TI: ti, C: c, In: in})
		pid := m.onDetach(ti, fi, args)
		ti.succeeded(nil)
		c.check()
		return pid
	}
	pid := fmt.Sprintf("%s.%s~%d", ti.c.pid, ti.t.ID, ti.subN)
	ord := ti.subN
	ti.subN++
	m.feat["subflow"]++
	ti.state = tsSub
	m.fact(Fact{Kind: "begin", Pid: ti.c.pid, Task: ti.t.ID, N: ti.n - 1, TI: ti, C: ti.c, In: in})
	c := m.newCont(fi, pid, ti.c, ti, ord, args)
	ti.child = c
	if m.onBegin != nil {
		m.onBegin(ti)
	}
	m.startCont(c)
	return pid
}

// Begin: an activity has been called with these inputs
func (m *Model) Begin(pid, task string, inputs map[string]interface{}, id, flowName string, actName string) (*TI, Beh, map[string]interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.viol != "" {
		return nil, Beh{Kind: "ok"}, nil
	}
	m.note("begin %s/%s", pid, task)
	if m.over && !m.conc {
		m.fail("task %s of %s begins after the run was reported to be done", task, pid)
		return nil, Beh{}, nil
	}
	ti := m.lookup(pid, task)
	if ti == nil {
		return nil, Beh{}, nil
	}
	c := ti.c
	t := ti.t
	if t.Sub > 0 {
		m.fail("model: activity called for subflow task %s", task)
		return nil, Beh{}, nil
	}
	if !match(c.flow.Name, flowName) {
		m.fail("task %s of %s runs in a flow named %q, want %q", task, pid, flowName, c.flow.Name)
	}
	if !match(c.id, id) {
		m.fail("task %s of %s runs in flow instance %q, other tasks of the run in %q", task, pid, id, c.id.Val)
	}
	if actName != t.Name && actName != t.ID {
		m.fail("activity of task %s of %s is named %q", task, pid, actName)
	}
	key := inputs["k"]
	if !ti.prepare(key) {
		if m.viol == "" {
			m.fail("task %s of %s begins although there is nothing to iterate over", task, pid)
		}
		return nil, Beh{}, nil
	}
	exp, ee := ti.expected()
	if ee != nil {
		m.fail("task %s of %s begins although a mapping cannot be resolved (%s), inputs %s", task, pid, ee.Tok, show(inputs))
		return nil, Beh{}, nil
	}
	// when the run has ended its outputs are set as attributes of the flow, which a
	// task that is still being executed may get to see
	late := m.conc && m.root.status != csActive
	for _, k := range sortedKeys(exp) {
		if g, ok := inputs[k]; !late && (!ok || !match(exp[k], g)) {
			m.fail("task %s of %s (execution %d) gets input %s = %s, want %s", task, pid, ti.n+1, k, show(inputs[k]), show(exp[k]))
			return nil, Beh{}, nil
		}
	}
	for k := range inputs {
		if _, ok := exp[k]; !ok {
			m.fail("task %s of %s gets input %s = %s that is not mapped", task, pid, k, show(inputs[k]))
			return nil, Beh{}, nil
		}
	}
	beh, outs := ti.beginExec(inputs)
	return ti, beh, outs
}

// beginExec starts an execution of an activity
func (ti *TI) beginExec(inputs map[string]interface{}) (Beh, map[string]interface{}) {
	c, t := ti.c, ti.t
	m := c.m
	ti.state = tsRunning
	ti.inputs = inputs
	n := ti.n
	ti.n++
	m.execs++
	beh := Beh{Kind: "ok"}
	if n < len(t.Script) && !(t.FirstOnly && c.ordinal > 0) {
		beh = t.Script[n]
	}
	ti.beh = beh
	outs := map[string]interface{}{}
	for _, o := range t.Outs {
		if !o.set(n) {
			continue
		}
		switch o.Kind {
		case "tok":
			outs[o.Name] = fmt.Sprintf("V:%s/%s#%d", c.pid, t.ID, n)
		case "num":
			outs[o.Name] = n
		case "lit":
			outs[o.Name] = o.V
		case "echo":
			outs[o.Name] = plain(inputs["a"])
		case "typed":
			outs[o.Name] = plain(typedOuts[o.V.(string)])
		}
	}
	m.fact(Fact{Kind: "begin", Pid: c.pid, Task: t.ID, N: n, TI: ti, C: c, In: inputs})
	if m.onBegin != nil {
		m.onBegin(ti)
	}
	return beh, outs
}

// tok is the text that identifies an error raised by the execution
func (ti *TI) tok(b Beh) string { return fmt.Sprintf("E:%s/%s:%s;", ti.c.pid, ti.t.ID, b.Tok) }

// End: the activity is about to return
func (m *Model) End(ti *TI, beh Beh, outs map[string]interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.viol != "" || ti == nil {
		return
	}
	m.note("end %s/%s %s", ti.c.pid, ti.t.ID, beh.Kind)
	if ti.state != tsRunning {
		return
	}
	ti.endExec(beh, outs)
}

// endExec ends an execution of an activity
func (ti *TI) endExec(beh Beh, outs map[string]interface{}) {
	c := ti.c
	m := c.m
	switch beh.Kind {
	case "ok":
		for k, v := range beh.Set {
			c.attrs[k] = v
		}
		if beh.Ret != nil && !c.isShadow {
			c.forced = true
			c.ret, c.retErr = beh.Ret, beh.RetEr
		}
		m.fact(Fact{Kind: "end", Pid: c.pid, Task: ti.t.ID, N: ti.n - 1, TI: ti, C: c, Out: outs})
		ti.succeeded(outs)
	default:
		ev := ti.scriptErr(beh)
		m.fact(Fact{Kind: "enderr", Pid: c.pid, Task: ti.t.ID, N: ti.n - 1, TI: ti, C: c, Info: ev.Tok})
		if m.onExec != nil {
			m.onExec(ti, ev)
		}
		ti.failedExec(ev)
	}
	c.check()
}

// scriptErr is the error of an execution that fails
func (ti *TI) scriptErr(beh Beh) *ErrVal {
	m := ti.c.m
	ev := ti.c.newErr(ti.t, ti.tok(beh))
	switch beh.Kind {
	case "retriable", "err":
		ev.Activity = true
		ev.Names = ti.t.names()
		ev.Names = ev.Names[len(ev.Names)-1:] // the name, if there is one
		ev.Retri = beh.Kind == "retriable"
		ev.Code = beh.Code
		ev.Data = beh.Data
		m.feat["activity-error"]++
	case "plain":
		m.feat["plain-error"]++
	case "panic", "nilpanic":
		m.feat["panic"]++
		if beh.Kind == "nilpanic" {
			ev.Tok = ""
		}
	}
	return ev
}

// Result: HandleResult was called
func (m *Model) Result(data map[string]interface{}, err error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	cp := map[string]interface{}{}
	for k, v := range data {
		cp[k] = v
	}
	if data == nil {
		cp = nil
	}
	m.note("result %s %v", show2(cp), err)
	if m.over {
		m.fail("a result is reported after completion was signalled: %s %v", show2(cp), err)
	}
	m.res = append(m.res, Res{Data: cp, Err: err})
}

func show2(m map[string]interface{}) string {
	if m == nil {
		return "nil"
	}
	return show(m)
}

// Done was called
func (m *Model) Done() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.note("done")
	m.done++
	m.over = true
	if m.done > 1 {
		m.fail("completion is signalled %d times", m.done)
	}
}

// dataMatch compares result data; absent and empty are the same
func dataMatch(exp, got map[string]interface{}) bool {
	if len(exp) == 0 && len(got) == 0 {
		return true
	}
	return match(exp, got)
}

// Finish judges the whole run after it is done
func (m *Model) Finish(replies []map[string]interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.viol != "" {
		return
	}
	if m.done != 1 {
		m.fail("completion was signalled %d times", m.done)
		return
	}
	if !m.checkIDs() {
		return
	}
	nr := len(m.res)
	for i, r := range replies {
		if i >= nr {
			m.fail("reply %d did not reach the caller", i+1)
			return
		}
		if m.res[i].Err != nil || !dataMatch(r, m.res[i].Data) {
			m.fail("reply %d is %s, the caller got %s, %v", i+1, show2(r), show2(m.res[i].Data), m.res[i].Err)
			return
		}
	}
	switch m.root.status {
	case csActive:
		var left []string
		m.left(m.root, &left)
		m.fail("the run ended (%s) although there is something left to do: %s", m.outcome(), strings.Join(left, ", "))
		return
	case csDead:
		m.fail("model: root dead")
		return
	}
	if len(replies) == 0 && nr != 1 {
		m.fail("%d outcomes were reported, want exactly 1: %s", nr, m.outcome())
		return
	}
	if len(replies) > 0 && nr != len(replies) && nr != len(replies)+1 {
		m.fail("%d outcomes were reported after %d replies", nr, len(replies))
		return
	}
	if nr == len(replies) {
		return
	}
	last := m.res[nr-1]
	if m.root.status == csFailed {
		m.feat["run-failed"]++
		if m.wantNil != nil && m.wantNil() {
			if last.Err != nil || len(last.Data) > 0 {
				m.fail("the failure of the run was asserted, but it is reported as %s, %v", show2(last.Data), last.Err)
			}
			return
		}
		if last.Err == nil {
			m.fail("the run is reported as successful (%s) although it failed with %q", show2(last.Data), m.root.ev.Tok)
			return
		}
		if !strings.Contains(last.Err.Error(), m.root.ev.Tok) {
			m.fail("the run is reported to have failed with %q, want an error about %q", last.Err.Error(), m.root.ev.Tok)
		}
		return
	}
	if e := m.root.retErr; m.root.forced && e != "" {
		m.feat["returned-error"]++
		if last.Err == nil || !strings.Contains(last.Err.Error(), e) {
			m.fail("the run returned the error %q, but it is reported as %s, %v", e, show2(last.Data), last.Err)
		}
		return
	}
	if last.Err != nil {
		m.fail("the run is reported as failed (%v) although it completed", last.Err)
		return
	}
	want := m.root.outs
	if len(replies) > 0 && m.root.ret == nil {
		// what was replied is what was returned
		if dataMatch(replies[len(replies)-1], last.Data) {
			return
		}
	}
	if !dataMatch(want, last.Data) {
		m.fail("the run returned %s, want %s", show2(last.Data), show2(want))
	}
}

var (
	idMu  sync.Mutex
	idMap = map[string]string{} // flow ids of the runs of this process
)

// checkIDs: distinct flow runs have distinct ids
func (m *Model) checkIDs() bool {
	seen := map[string]*Cont{}
	for _, c := range m.all {
		if !c.id.Bound {
			continue
		}
		if o := seen[c.id.Val]; o != nil {
			m.fail("flow runs %s and %s have the same id %q", o.pid, c.pid, c.id.Val)
			return false
		}
		seen[c.id.Val] = c
		if c.parent == nil && !m.givenID {
			idMu.Lock()
			o, dup := idMap[c.id.Val]
			idMap[c.id.Val] = c.pid
			idMu.Unlock()
			if dup && o != c.pid {
				m.fail("runs %s and %s have the same id %q", o, c.pid, c.id.Val)
				return false
			}
		}
	}
	return true
}

func (m *Model) outcome() string {
	var s []string
	for _, r := range m.res {
		s = append(s, fmt.Sprintf("%s,%v", show2(r.Data), r.Err))
	}
	return strings.Join(s, " | ")
}

func (m *Model) left(c *Cont, out *[]string) {
	for _, id := range sortedKeys(c.ti) {
		ti := c.ti[id]
		switch ti.state {
		case tsEnabled, tsRunning:
			*out = append(*out, c.pid+"/"+id)
		case tsSub:
			if ti.child != nil {
				m.left(ti.child, out)
			} else if ti.post {
				*out = append(*out, c.pid+"/"+id)
			}
		}
	}
}
