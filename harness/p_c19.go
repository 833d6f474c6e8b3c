package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/support/trace"
	"github.com/project-flogo/core/trigger"
)

// C19: tracing. All spans are collected and compared with the model of the run.

type span struct {
	id     int
	col    *spanCol
	parent *span
	given  trace.TracingContext // the parent as given
	op     string
	tags   map[string]interface{}
	begun  int
	ended  int
	errs   []error
	failed bool // could not be opened
}

func (s *span) TraceObject() interface{}              { return s }
func (s *span) SetTags(m map[string]interface{}) bool { return true }
func (s *span) SetTag(k string, v interface{}) bool   { s.col.setTag(s, k, v); return true }
func (s *span) LogKV(m map[string]interface{}) bool   { return true }
func (s *span) TraceID() string                       { return s.col.id }
func (s *span) SpanID() string                        { return fmt.Sprintf("%s/%d", s.col.id, s.id) }
func (s *span) isTask() bool                          { _, ok := s.tags["task_name"]; return ok }
func (s *span) String() string {
	if s == nil {
		return "no span"
	}
	if s.isTask() {
		return fmt.Sprintf("span %d of task %v", s.id, s.tags["task_instance_id"])
	}
	return fmt.Sprintf("span %d of flow %q", s.id, s.op)
}

// spanCol collects the spans of a run
type spanCol struct {
	id    string
	seq   int
	spans []*span
	bad   string
	conc  bool
	// the run has ended and all spans are finished: what abandoned tasks
	// still open, to retry say, is not looked at
	sealed bool
	// the tracer refuses to open the span
	refuse func(n int) bool
	finErr bool
}

func (c *spanCol) setTag(s *span, k string, v interface{}) {
	tmu.Lock()
	defer tmu.Unlock()
	s.tags[k] = v
}

func (c *spanCol) fail(f string, a ...interface{}) {
	if c.bad == "" {
		c.bad = fmt.Sprintf(f, a...)
	}
}

var (
	tmu    sync.Mutex
	curCol *spanCol
	colSeq int
)

type vtracer struct{}

func (vtracer) Start() error { return nil }
func (vtracer) Stop() error  { return nil }
func (vtracer) Name() string { return "verif" }
func (vtracer) Extract(trace.CarrierFormat, interface{}) (trace.TracingContext, error) {
	return nil, nil
}
func (vtracer) Inject(trace.TracingContext, trace.CarrierFormat, interface{}) error { return nil }

func (vtracer) StartTrace(config trace.Config, parent trace.TracingContext) (trace.TracingContext, error) {
	tmu.Lock()
	defer tmu.Unlock()
	c := curCol
	p, _ := parent.(*span)
	if p != nil {
		c = p.col
	}
	if c == nil {
		return &span{col: &spanCol{}, tags: map[string]interface{}{}}, nil
	}
	c.seq++
	s := &span{id: len(c.spans), col: c, parent: p, given: parent, op: config.Operation, tags: map[string]interface{}{}, begun: c.seq}
	for k, v := range config.Tags {
		s.tags[k] = v
	}
	if !c.sealed {
		c.spans = append(c.spans, s)
	}
	if !c.conc && p != nil && p.ended > 0 {
		c.fail("%s is opened below %s, which is finished", s, p)
	}
	if c.refuse != nil && c.refuse(s.id) {
		s.failed = true
		return nil, errors.New("the tracer refuses")
	}
	return s, nil
}

func (vtracer) FinishTrace(tc trace.TracingContext, err error) error {
	tmu.Lock()
	defer tmu.Unlock()
	s, _ := tc.(*span)
	if s == nil {
		if curCol != nil {
			curCol.fail("FinishTrace is called without a span (%T)", tc)
		}
		return nil
	}
	s.col.seq++
	s.ended = s.col.seq
	s.errs = append(s.errs, err)
	if s.col.finErr {
		return errors.New("the tracer fails")
	}
	return nil
}

func initC19(v *Variant) {
	if v.Name != "no-tracer" {
		if err := trace.RegisterTracer(vtracer{}); err != nil {
			panic("harness: " + err.Error())
		}
	}
	initEngine(nil, nil)
}

// texec is one execution of a task
type texec struct {
	n    int
	ti   *TI
	idx  int
	out  string // "", ok, err
	sp   *span  // as seen by the activity
	kid  *Cont
	last bool
	cond bool // the condition of the loop failed afterwards
}

type c19 struct {
	col    *spanCol
	client *span
	execs  map[string][]*texec
	mapf   map[string]int
	conc   bool
	strict bool
	event  string
	seen   map[*span]bool
	feat   map[string]int
}

func tkey(pid, task string) string { return pid + "\x00" + task }

func (k *c19) onFact(f *Fact) {
	key := tkey(f.Pid, f.Task)
	ex := k.execs[key]
	switch f.Kind {
	case "begin":
		k.execs[key] = append(ex, &texec{n: f.N, ti: f.TI, idx: f.TI.idx})
	case "end", "enderr":
		for _, e := range ex {
			if e.n == f.N && e.ti == f.TI {
				e.out = "ok"
				if f.Kind == "enderr" {
					e.out = "err"
				}
			}
		}
	case "mapfail":
		k.mapf[key]++
	case "fail":
		if len(ex) > 0 {
			ex[len(ex)-1].cond = true
		}
	case "start":
		if f.C.host != nil {
			ex := k.execs[tkey(f.C.parent.pid, f.C.host.t.ID)]
			if len(ex) > 0 {
				ex[len(ex)-1].kid = f.C
			}
		}
	}
}

// onAct: an activity is being executed
func (k *c19) onAct(m *Model, ti *TI, ctx activity.Context) {
	host := ctx.ActivityHost()
	tc := ctx.GetTracingContext()
	tmu.Lock()
	defer tmu.Unlock()
	sp, _ := tc.(*span)
	m.mu.Lock()
	name := ti.c.pid + "/" + ti.t.ID
	m.mu.Unlock()
	if sp == nil {
		if k.col.refuse == nil {
			k.col.fail("activity %s has no tracing context", name)
		}
		return
	}
	switch {
	case sp.col != k.col:
		k.col.fail("activity %s has a span of another run", name)
	case sp.ended > 0:
		k.col.fail("activity %s is executed under %s, which is finished", name, sp)
	case !sp.isTask() || !k.isOf(sp, ti.t):
		k.col.fail("activity %s is executed under %s", name, sp)
	case sp.tags["flow_id"] != host.ID():
		k.col.fail("%s of %s names the flow %v, want %q", sp, name, sp.tags["flow_id"], host.ID())
	case k.col.refuse == nil && (sp.parent == nil || sp.parent.isTask() || sp.parent.tags["flow_id"] != host.ID()):
		k.col.fail("%s of %s is below %s", sp, name, sp.parent)
	}
	for _, mp := range ti.t.Maps {
		if mp.E != nil && mp.E.K == "ctx" && ti.inputs != nil {
			got := ti.inputs[mp.Name]
			switch mp.E.Name {
			case "SpanId":
				k.feat["span-id-mapped"]++
				if sp.parent != nil && got != sp.parent.SpanID() {
					k.col.fail("$flowctx[SpanId] in %s is %v, want %s", name, got, sp.parent.SpanID())
				}
			case "TraceId":
				if sp.parent != nil && got != sp.parent.TraceID() {
					k.col.fail("$flowctx[TraceId] in %s is %v, want %s", name, got, sp.parent.TraceID())
				}
			}
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, e := range k.execs[tkey(ti.c.pid, ti.t.ID)] {
		if e.sp == sp {
			k.col.fail("two executions of %s have %s", name, sp)
		}
		if e.ti == ti && e.n == ti.n-1 {
			e.sp = sp
		}
	}
}

// taskID of the span of a task
func (k *c19) isOf(sp *span, t *Task) bool {
	id, _ := sp.tags["task_instance_id"].(string)
	return id == t.ID || strings.HasPrefix(id, t.ID+"-")
}

func (k *c19) baseID(sp *span) string {
	id, _ := sp.tags["task_instance_id"].(string)
	if i := strings.LastIndexByte(id, '-'); i > 0 {
		id = id[:i]
	}
	return id
}

// finished: all spans are finished
func (k *c19) finished() (n int) {
	tmu.Lock()
	defer tmu.Unlock()
	for _, s := range k.col.spans {
		if s.ended == 0 && !s.failed {
			n++
		}
	}
	k.col.sealed = n == 0
	return
}

// check compares the spans with the run
func (k *c19) check(m *Model) {
	tmu.Lock()
	defer tmu.Unlock()
	c := k.col
	k.seen = map[*span]bool{}
	var roots []*span
	for _, s := range c.spans {
		k.feat["spans"]++
		if s.failed {
			if s.ended > 0 {
				c.fail("%s is finished although it could not be opened", s)
			}
			continue
		}
		switch len(s.errs) {
		case 1:
		case 0:
			c.fail("%s is never finished", s)
		default:
			c.fail("%s is finished %d times", s, len(s.errs))
		}
		if s.parent == nil || s.parent == k.client {
			roots = append(roots, s)
		}
	}
	if c.refuse != nil || c.bad != "" {
		return
	}
	if len(roots) != 1 {
		c.fail("%d spans without a parent in the run, want one: %v", len(roots), roots)
		return
	}
	root := roots[0]
	if k.client != nil && root.parent != k.client {
		c.fail("the span of the run is not below the span of the caller")
	}
	if k.client == nil && root.given != nil {
		c.fail("the span of the run has the parent %v", root.given)
	}
	if ev, ok := root.tags["flogo_event_id"]; k.event != "" && ev != k.event || k.event == "" && ok {
		c.fail("the span of the run has the event id %v, want %q", ev, k.event)
	}
	if root.isTask() {
		c.fail("the first span is %s", root)
		return
	}
	if k.strict {
		k.checkFlow(m.root, root)
		for _, s := range c.spans {
			if !k.seen[s] {
				c.fail("%s belongs to no execution", s)
			}
		}
	} else {
		for _, s := range c.spans {
			if s != root && s.isTask() == s.parent.isTask() {
				c.fail("%s is below %s", s, s.parent)
			}
		}
		end := map[CState]bool{csCompleted: false, csFailed: true}
		if want, ok := end[m.root.status]; ok && want != (root.errs[0] != nil) {
			c.fail("%s ends with error %v, the run failed: %v", root, root.errs[0], want)
		}
	}
}

func (k *c19) checkFlow(fc *Cont, sp *span) {
	c := k.col
	k.seen[sp] = true
	if sp.isTask() {
		c.fail("%s instead of a span of flow %s", sp, fc.pid)
		return
	}
	if sp.op != fc.flow.Name || sp.tags["flow_name"] != fc.flow.Name {
		c.fail("%s of %s is named %q, flow name %v, want %q", sp, fc.pid, sp.op, sp.tags["flow_name"], fc.flow.Name)
	}
	if !match(fc.id, sp.tags["flow_id"]) {
		c.fail("%s of %s has the flow id %v, want %q", sp, fc.pid, sp.tags["flow_id"], fc.id.Val)
	}
	if fc.parent != nil {
		if !match(fc.parent.id, sp.tags["parent_flow_id"]) || sp.tags["parent_flow_name"] != fc.parent.flow.Name {
			c.fail("%s of %s names the caller %v %v, want %q %q", sp, fc.pid, sp.tags["parent_flow_id"], sp.tags["parent_flow_name"], fc.parent.id.Val, fc.parent.flow.Name)
		}
	}
	switch err := sp.errs[0]; fc.status {
	case csCompleted:
		if err != nil {
			c.fail("%s of %s, which completed, ends with error %v", sp, fc.pid, err)
		}
	case csFailed:
		k.feat["failed-flow-spans"]++
		if err == nil {
			c.fail("%s of %s, which failed, ends without error", sp, fc.pid)
		}
	default:
		k.feat["abandoned-flow-spans"]++
	}
	groups := map[string][]*span{}
	for _, s := range c.spans {
		if s.parent != sp {
			continue
		}
		if !s.isTask() {
			c.fail("%s is below %s", s, sp)
			return
		}
		id := k.baseID(s)
		groups[id] = append(groups[id], s)
	}
	for _, g := range []*Graph{fc.flow.G, fc.flow.EH} {
		if g == nil {
			continue
		}
		for _, t := range g.Tasks {
			k.checkTask(fc, t, groups[t.ID])
			delete(groups, t.ID)
		}
	}
	for id := range groups {
		c.fail("a span for the unknown task %q of %s", id, fc.pid)
	}
}

func (k *c19) checkTask(fc *Cont, t *Task, sps []*span) {
	c := k.col
	name := fc.pid + "/" + t.ID
	key := tkey(fc.pid, t.ID)
	ex := k.execs[key]
	if len(sps) < len(ex) || len(sps) > len(ex)+k.mapf[key] {
		c.fail("%d spans for %d executions of %s", len(sps), len(ex), name)
		return
	}
	ids := map[string]int{}
	for i, s := range sps {
		k.seen[s] = true
		if s.op != s.tags["task_name"] || s.op != t.Name && s.op != t.ID {
			c.fail("%s of %s is named %q, %v", s, name, s.op, s.tags["task_name"])
		}
		if s.tags["flow_name"] != fc.flow.Name || !match(fc.id, s.tags["flow_id"]) {
			c.fail("%s of %s names the flow %v %v, want %q %q", s, name, s.tags["flow_id"], s.tags["flow_name"], fc.id.Val, fc.flow.Name)
		}
		err := s.errs[0]
		if i >= len(ex) {
			k.feat["mapping-failure-spans"]++
			if err == nil {
				c.fail("%s of %s, a mapping of which fails, ends without error", s, name)
			}
			continue
		}
		e := ex[i]
		id := s.tags["task_instance_id"].(string)
		if old, ok := ids[id]; ok && old != e.idx {
			c.fail("two iterations of %s have the instance id %s", name, id)
		}
		ids[id] = e.idx
		if e.sp != nil && e.sp != s {
			c.fail("execution %d of %s is done under %s, want %s", i, name, e.sp, s)
		}
		out := e.out
		var kids []*span
		for _, x := range c.spans {
			if x.parent == s {
				kids = append(kids, x)
			}
		}
		if e.kid != nil {
			switch e.kid.status {
			case csCompleted:
				out = "ok"
			case csFailed:
				out = "err"
			}
			if fc.status == csDead || fc.status == csFailed || fc.handling {
				// the end of the subflow may not have reached its caller
				if i == len(ex)-1 && out == "ok" && e.ti.child != nil {
					out = ""
				}
			}
			if len(kids) != 1 {
				c.fail("%d spans below %s of %s, which calls a flow", len(kids), s, name)
				return
			}
			k.feat["subflow-spans"]++
			k.checkFlow(e.kid, kids[0])
		} else if len(kids) > 0 {
			c.fail("%s is below %s of %s", kids[0], s, name)
		}
		if i == len(ex)-1 && e.cond && out == "ok" {
			out = "" // the loop failed after the execution
		}
		switch out {
		case "ok":
			if err != nil {
				c.fail("%s of %s ends with error %v, but the execution succeeded", s, name, err)
			}
		case "err":
			k.feat["failed-task-spans"]++
			if err == nil {
				c.fail("%s of %s ends without error, but the execution failed", s, name)
			}
		default:
			k.feat["abandoned-task-spans"]++
		}
	}
	if len(ex) > 1 {
		k.feat["repeated-task-spans"]++
	}
}

// refusedRun starts a run whose own span cannot be opened: it is refused, and nothing of it happens
func (k *c19) refusedRun(cs *Case, ctx context.Context) *Outcome {
	o := &Outcome{Case: cs, Feat: map[string]int{"refused-runs": 1}}
	l, err := load(cs)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	k.col.refuse = func(n int) bool { return n == 0 }
	in := copyMap(cs.In)
	if in == nil {
		in = map[string]interface{}{}
	}
	in["pid"] = k.col.id
	c := newCollect()
	err = l.act.(action.AsyncAction).Run(ctx, in, c)
	quiesce()
	c.mu.Lock()
	defer c.mu.Unlock()
	tmu.Lock()
	defer tmu.Unlock()
	curCol = nil
	orph := takeOrphans()
	switch {
	case err == nil:
		o.Viol = "a run whose span cannot be opened is started"
	case len(c.res) > 0 || c.dones > 0:
		o.Viol = fmt.Sprintf("a run that was refused reports %d results and ends %d times", len(c.res), c.dones)
	case len(orph) > 0:
		o.Viol = "a run that was refused executes: " + orph[0]
	case len(k.col.spans) != 1 || k.col.spans[0].ended > 0:
		o.Viol = fmt.Sprintf("a run that was refused has the spans %v", k.col.spans)
	}
	o.Non = true
	return o
}

func runC19(cx *Cx) *Outcome {
	s := cx.S
	conc := strings.HasPrefix(cx.Var.Name, "concurrent")
	off := cx.Var.Name == "no-tracer"
	var cs *Case
	if conc {
		cs = genC14(s)
	} else {
		p := baseProf()
		p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 4
		p.Sub, p.Loop, p.Retry = 30, 15, 12
		p.ErrLink, p.EH = 20, 45
		p.Fail, p.Panic = 14, 25
		p.MapFail, p.Risky, p.CondFail, p.SetFail = 15, 15, 5, 5
		p.Return, p.SetOut, p.EmptyFlow, p.OnProbe = 8, 25, 4, 4
		p.Expr, p.Other, p.Label, p.Chain = 25, 10, 8, 20
		cs = genCase(s, p)
	}
	if !off {
		for _, f := range cs.Flows {
			for _, g := range []*Graph{f.G, f.EH} {
				if g == nil {
					continue
				}
				for _, t := range g.Tasks {
					if t.Sub == 0 && s.P(10) && !hasMap(t, "q") {
						t.Maps = append(t.Maps, &Mapping{Name: "q", E: CtxRef(s.Str("SpanId", "TraceId"))})
					}
				}
			}
		}
	}
	tmu.Lock()
	colSeq++
	k := &c19{col: &spanCol{id: fmt.Sprintf("T%d", colSeq), conc: conc}, execs: map[string][]*texec{}, mapf: map[string]int{},
		conc: conc, feat: map[string]int{}}
	curCol = k.col
	tmu.Unlock()
	ctx := context.Background()
	if s.P(20) {
		k.event = "ev" + s.Str("1", "2")
		ctx = trigger.NewContextWithEventId(ctx, k.event)
	}
	if conc || s.P(60) {
		k.client = &span{id: -1, col: k.col, op: "client", tags: map[string]interface{}{}}
		ctx = trace.AppendTracingContext(ctx, k.client)
	}
	if !conc && !off && s.P(25) {
		k.feat["failing-tracer"]++
		k.col.finErr = s.P(50)
		bits := s.N(1 << 16)
		k.col.refuse = func(n int) bool { return n > 0 && bits>>(uint(n)%16)&1 == 1 }
	}
	ro := &RunOpts{Conc: conc, Ctx: ctx, Prepare: func(r *Run) {
		r.M.onFact = k.onFact
		r.onAct = func(ti *TI, ctx activity.Context) {
			if off {
				if tc := ctx.GetTracingContext(); tc != nil {
					tmu.Lock()
					k.col.fail("an activity has a tracing context although tracing is off")
					tmu.Unlock()
				}
				return
			}
			k.onAct(r.M, ti, ctx)
		}
	}}
	if conc {
		if s.P(80) {
			ro.Choices = s.N
		} else {
			ro.Sleep = true
		}
	}
	if !conc && !off && s.P(3) {
		return k.refusedRun(cs, ctx)
	}
	o, r := runCase(cx, cs, ro)
	if r == nil || o.Viol != "" {
		return o
	}
	m := r.M
	if conc {
		for t := time.Now(); k.finished() > 0 && time.Since(t) < 10*time.Second; {
			time.Sleep(200 * time.Microsecond)
		}
		takeOrphans()
	}
	m.mu.Lock()
	k.strict = true
	for _, c := range m.all {
		if conc && (c.isShadow || c.status != csCompleted || c.handling || c.forced) {
			k.strict = false
		}
	}
	if !off {
		k.check(m)
	}
	if conc && k.strict {
		k.feat["strict"]++
	}
	m.mu.Unlock()
	tmu.Lock()
	defer tmu.Unlock()
	if k.col.bad != "" {
		o.Viol = k.col.bad
		for _, s := range k.col.spans {
			o.Hist = append(o.Hist, fmt.Sprintf("%s: below %v, %d-%d, %v", s, s.parent, s.begun, s.ended, s.errs))
		}
	}
	if curCol == k.col && !conc {
		curCol = nil
	}
	o.Feat = merge(o.Feat, k.feat)
	o.Non = len(k.col.spans) > 3 && (k.feat["subflow-spans"]+k.feat["failed-task-spans"]+k.feat["repeated-task-spans"]+k.feat["abandoned-task-spans"]+k.feat["failing-tracer"] > 0 || conc && m.execs > 3)
	if off {
		o.Non = m.execs > 2
	}
	return o
}

func init() {
	register(&Prop{ID: "C19", Quick: 60000, Thorough: 900000, Run: runC19, Init: initC19,
		Variants: []Variant{seqVar, {Name: "concurrent", Env: concVar.Env}, {Name: "no-tracer"}, raceConcVar},
		Rule:     "Flows with loops, retries, nested subflows, failures, error links, handlers and early returns, run below a caller's span or without, sequentially and concurrently, with a tracer that works or that refuses to open some spans; non-trivial: more than three spans and a subflow, a failed, repeated or abandoned execution"})
}
