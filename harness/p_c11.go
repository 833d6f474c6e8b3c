package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	coreevent "github.com/project-flogo/core/engine/event"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/support/event"
)

// C11: published events. All events are collected and compared with the model
// of the run.

const sentinelType = "verif-sentinel"

type evRec struct {
	f event.FlowEvent
	t event.TaskEvent
}

func (e *evRec) String() string {
	if e.f != nil {
		return fmt.Sprintf("flow %s %s", e.f.FlowID(), e.f.FlowStatus())
	}
	return fmt.Sprintf("task %s/%s %s", e.t.FlowID(), e.t.TaskInstanceId(), e.t.TaskStatus())
}

type evSink struct {
	mu   sync.Mutex
	recs []*evRec
	bad  string
	seq  int
	got  chan int
}

var evs = &evSink{got: make(chan int, 16)}

func (s *evSink) HandleEvent(c *coreevent.Context) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch e := c.GetEvent().(type) {
	case int:
		s.got <- e
	case event.FlowEvent:
		s.recs = append(s.recs, &evRec{f: e})
		if raceOn {
			_ = fmt.Sprint(e.FlowInput(), e.FlowOutput())
		}
		if c.GetEventType() != event.FlowEventType {
			s.bad = "a flow event is published as " + c.GetEventType()
		}
	case event.TaskEvent:
		s.recs = append(s.recs, &evRec{t: e})
		if raceOn {
			_ = fmt.Sprint(e.TaskInput(), e.TaskOutput())
		}
		if c.GetEventType() != event.TaskEventType {
			s.bad = "a task event is published as " + c.GetEventType()
		}
	default:
		s.bad = fmt.Sprintf("an unknown event is published: %T", e)
	}
	return nil
}

// flush waits until everything published so far was delivered and takes it
func (s *evSink) flush() []*evRec {
	s.seq++
	coreevent.Post(sentinelType, s.seq)
	t := time.After(60 * time.Second)
	for {
		select {
		case n := <-s.got:
			if n != s.seq {
				continue
			}
		case <-t:
			fmt.Fprintln(os.Stderr, "harness: events are not delivered")
			os.Exit(2)
		}
		break
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.recs
	s.recs = nil
	return r
}

func initC11(v *Variant) {
	initEngine(nil, nil)
	types := []string{sentinelType}
	if v.Name != "tasks-only" {
		types = append(types, event.FlowEventType)
	}
	if v.Name != "flows-only" {
		types = append(types, event.TaskEventType)
	}
	if err := coreevent.RegisterListener("verif", evs, types); err != nil {
		panic("harness: " + err.Error())
	}
}

func runC11(cx *Cx) *Outcome {
	s := cx.S
	conc := strings.HasPrefix(cx.Var.Name, "concurrent")
	limit := limitOf(cx.Var)
	var cs *Case
	switch {
	case limit != defaultLimit:
		cs, _, _, _ = genC16(s, limit, conc)
	case conc:
		cs = genC14(s)
	default:
		p := baseProf()
		p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 4
		p.Sub, p.Loop, p.Retry = 25, 12, 8
		p.ErrLink, p.EH = 20, 45
		p.Fail, p.Panic = 14, 25
		p.MapFail, p.Risky, p.CondFail, p.SetFail = 15, 15, 5, 5
		p.Return, p.SetOut, p.EmptyFlow, p.OnProbe = 8, 25, 4, 4
		p.Expr, p.Other, p.Label = 25, 10, 8
		cs = genCase(s, p)
	}
	o := &Outcome{Case: cs}
	l, err := load(cs)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	if old := evs.flush(); len(old) > 0 && !conc {
		o.Viol = "an event is published after its run has ended: " + old[0].String()
		return o
	}
	ro := &instance.RunOptions{Op: instance.OpStart}
	opt := &RunOpts{Conc: conc, RO: ro, NoFinish: limit != defaultLimit, Prepare: func(r *Run) {
		r.M.givenID = true
		ro.PreservedInstanceId = "A" + r.M.pid
	}}
	if conc && limit == defaultLimit {
		if s.P(80) {
			opt.Choices = s.N
		} else {
			opt.Sleep = true
		}
	}
	r, err := l.exec(opt)
	if err == errTimeout {
		o.Hang = true
	}
	recs := evs.flush()
	m := r.M
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, e := range recs {
		m.note("%s", e)
	}
	if m.viol == "" {
		if evs.bad != "" {
			m.fail("%s", evs.bad)
		}
		(&evCheck{m: m, id: ro.PreservedInstanceId, conc: conc, lim: limit, flows: cx.Var.Name != "tasks-only", tasks: cx.Var.Name != "flows-only"}).run(recs)
	}
	o.Viol = m.viol
	o.Hist = append([]string{}, m.hist...)
	o.Feat = merge(nil, m.feat)
	o.Feat["executions"] += m.execs
	o.Feat["events"] += len(recs)
	o.Non = len(recs) >= 8 && (m.feat["subflow"] > 0 || m.feat["skipped"] > 0 || m.feat["error-link"]+m.feat["error-handler"] > 0 || m.root.status == csFailed)
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !conc {
		o.Viol = "after the run had ended: " + orph[0]
	}
	return o
}

type evCheck struct {
	m            *Model
	id           string
	conc         bool
	lim          int
	flows, tasks bool
	stopped      bool
	lastWork     map[string]int  // the last activity of the flow run that begins or ends
	ahead        map[string]bool // flow runs with loops that are executed zero times, which takes a step, or with failing settings

	fl map[string]*evFlow // by flow id
	by map[string]*evFlow // by pid
}

type evFlow struct {
	id         string
	c          *Cont
	start, end int // positions
	se, ee     event.FlowEvent
	tasks      map[string][]int
}

type taskFacts struct {
	enabled, skip, done, fail, condfail bool
	begun, ended                        int
	lastBegin, lastEnd, firstBegin      *Fact
	mapfail                             bool
	skipAt                              int
	exec                                *Fact
	failTok                             string
}

// lenient: the order in which things end in the flow is not determined
func (k *evCheck) lenient(c *Cont) bool {
	if k.stopped {
		return true
	}
	if !k.conc {
		return (c.handling || c.forced) && k.ahead[c.pid]
	}
	for ; c != nil; c = c.parent {
		if c.handling || c.forced || c.status == csFailed || c.isShadow || c.shadow != nil {
			return true
		}
	}
	return false
}

func (k *evCheck) run(recs []*evRec) {
	m := k.m
	k.fl, k.by = map[string]*evFlow{}, map[string]*evFlow{}
	if k.lim != defaultLimit {
		for _, r := range m.res {
			if r.Err != nil && hasNumber(r.Err.Error(), k.lim) {
				k.stopped = true
			}
		}
	}
	facts := map[string]*taskFacts{}
	get := func(f *Fact) *taskFacts {
		x := facts[f.Pid+"/"+f.Task]
		if x == nil {
			x = &taskFacts{}
			facts[f.Pid+"/"+f.Task] = x
		}
		return x
	}
	k.ahead, k.lastWork = map[string]bool{}, map[string]int{}
	for i := range m.facts {
		f := &m.facts[i]
		switch f.Kind {
		case "enable":
			get(f).enabled = true
		case "skip":
			get(f).skip, get(f).skipAt = true, i
		case "done":
			get(f).done = true
			if get(f).begun == 0 {
				k.ahead[f.Pid] = true
			}
		case "condfail":
			get(f).condfail = true
		case "mapfail":
			get(f).mapfail = true
		case "fail":
			get(f).fail, get(f).failTok = true, f.Info
			if f.TI.t.SetFail != nil {
				k.ahead[f.Pid] = true
			}
		case "begin":
			k.lastWork[f.Pid] = i
			x := get(f)
			x.begun++
			x.lastBegin, x.mapfail = f, false
			if x.firstBegin == nil {
				x.firstBegin = f
			}
		case "end", "enderr":
			k.lastWork[f.Pid] = i
			get(f).lastEnd = f
		case "exec":
			get(f).exec = f
		}
	}
	// which events belong to which flow run
	n := 0
	for pos, e := range recs {
		id := ""
		if e.f != nil {
			id = e.f.FlowID()
		} else {
			id = e.t.FlowID()
		}
		if id != k.id && !strings.HasPrefix(id, k.id+"-") {
			if k.conc && strings.HasPrefix(id, "AR") {
				continue // what runs on after an earlier run has ended
			}
			m.fail("an event refers to flow instance %q, which does not exist: %s", id, e)
			return
		}
		x := k.fl[id]
		if x == nil {
			x = &evFlow{id: id, start: -1, end: -1, tasks: map[string][]int{}}
			k.fl[id] = x
		}
		if e.t != nil {
			tid := e.t.TaskInstanceId()
			x.tasks[tid] = append(x.tasks[tid], pos)
			continue
		}
		n++
		switch e.f.FlowStatus() {
		case event.STARTED:
			if x.start >= 0 {
				m.fail("flow %s is published to start twice", id)
				return
			}
			x.start, x.se = pos, e.f
		case event.COMPLETED, event.FAILED, event.CANCELLED:
			if x.end >= 0 {
				m.fail("flow %s is published to end twice: %s, then %s", id, x.ee.FlowStatus(), e.f.FlowStatus())
				return
			}
			if x.start < 0 {
				m.fail("flow %s is published to end before it starts", id)
				return
			}
			x.end, x.ee = pos, e.f
		default:
			m.fail("flow %s is published to be %q", id, e.f.FlowStatus())
			return
		}
	}
	if k.flows {
		for _, e := range recs {
			if e.f != nil && e.f.FlowStatus() == event.STARTED && k.fl[e.f.FlowID()] != nil {
				k.bind(e.f)
				if m.viol != "" {
					return
				}
			}
		}
		for _, c := range m.all {
			x := k.by[c.pid]
			if x == nil {
				if k.conc && c.parent != nil && (k.lenient(c.parent)) {
					continue
				}
				m.fail("no events are published for flow run %s", c.pid)
				return
			}
			k.flow(x)
			if m.viol != "" {
				return
			}
		}
	} else {
		// the flow instances are known by the activities they executed only
		for _, c := range m.all {
			id := c.id.Val
			if c.parent == nil {
				id = k.id
			} else if !c.id.Bound {
				continue
			}
			if x := k.fl[id]; x != nil {
				x.c = c
				k.by[c.pid] = x
			}
		}
	}
	for _, id := range sortedKeys(k.fl) {
		x := k.fl[id]
		if x.c == nil {
			if k.flows {
				m.fail("task events of flow instance %q are published, which never started", id)
				return
			}
			continue
		}
		for _, tid := range sortedKeys(x.tasks) {
			k.task(recs, x, tid, x.tasks[tid], facts[x.c.pid+"/"+tid])
			if m.viol != "" {
				return
			}
		}
	}
	if !k.tasks {
		return
	}
	for _, c := range m.all {
		x := k.by[c.pid]
		if x == nil || k.lenient(c) {
			continue
		}
		for _, key := range sortedKeys(facts) {
			pid, tid := key[:strings.LastIndexByte(key, '/')], key[strings.LastIndexByte(key, '/')+1:]
			if pid != c.pid || len(x.tasks[tid]) > 0 {
				continue
			}
			f := facts[key]
			// a flow is done when the only tasks left are to be skipped
			if f.begun > 0 || f.done || f.fail || f.skip && f.skipAt < k.lastWork[c.pid] && !k.ahead[c.pid] && !k.conc {
				m.fail("no events are published for task %s of %s", tid, c.pid)
				return
			}
		}
	}
}

// bind finds the flow run that has started according to the event
func (k *evCheck) bind(e event.FlowEvent) {
	m := k.m
	x := k.fl[e.FlowID()]
	h := e.HostTask()
	if e.FlowID() == k.id {
		if e.ParentFlowID() != "" || e.ParentFlowName() != "" || h.TaskInstanceId != "" || h.TaskName != "" {
			m.fail("the flow of the run is published to have parent %q, %q, %v", e.ParentFlowID(), e.ParentFlowName(), h)
			return
		}
		x.c = m.root
	} else {
		p := k.fl[e.ParentFlowID()]
		if p == nil || p.c == nil {
			m.fail("flow instance %s is published to have parent %q, which does not exist", e.FlowID(), e.ParentFlowID())
			return
		}
		if e.ParentFlowName() != p.c.flow.Name {
			m.fail("flow instance %s is published to have a parent named %q, want %q", e.FlowID(), e.ParentFlowName(), p.c.flow.Name)
			return
		}
		for pass := 0; pass < 2 && x.c == nil; pass++ {
			for _, c := range m.all {
				if c.parent == nil || c.parent.pid != p.c.pid || c.host.t.ID != h.TaskInstanceId || k.by[c.pid] != nil {
					continue
				}
				if c.id.Bound && c.id.Val == e.FlowID() || pass == 1 && !c.id.Bound {
					x.c = c
					break
				}
			}
		}
		if x.c == nil {
			m.fail("flow instance %s is published to be called by task %q of %s, which does not call it", e.FlowID(), h.TaskInstanceId, p.c.pid)
			return
		}
		if h.TaskName != x.c.host.t.Name {
			m.fail("flow instance %s is published to be called by a task named %q, want %q", e.FlowID(), h.TaskName, x.c.host.t.Name)
			return
		}
	}
	c := x.c
	k.by[c.pid] = x
	if e.FlowName() != c.flow.Name {
		m.fail("flow instance %s is published as %q, want %q", e.FlowID(), e.FlowName(), c.flow.Name)
		return
	}
	for _, n := range sortedKeys(c.in) {
		if v, ok := e.FlowInput()[n]; c.in[n] == nil && zeroish(v) {
			continue // not given
		} else if !ok || !match(c.in[n], v) {
			m.fail("flow %s is published to start with %s = %s, want %s", c.pid, n, show(v), show(c.in[n]))
			return
		}
	}
	if e.FlowError() != nil || len(e.FlowOutput()) > 0 {
		m.fail("flow %s is published to start with outputs %s, error %v", c.pid, show2(e.FlowOutput()), e.FlowError())
	}
}

func (k *evCheck) flow(x *evFlow) {
	m, c := k.m, x.c
	if x.end < 0 {
		m.fail("flow %s (%s) is never published to end", c.pid, x.id)
		return
	}
	e := x.ee
	if e.FlowName() != c.flow.Name || e.ParentFlowID() != x.se.ParentFlowID() || e.ParentFlowName() != x.se.ParentFlowName() || e.HostTask() != x.se.HostTask() {
		m.fail("flow %s ends as flow %q called by %q %q %v, it was started as %q by %q %q %v", c.pid, e.FlowName(), e.ParentFlowID(), e.ParentFlowName(), e.HostTask(),
			c.flow.Name, x.se.ParentFlowID(), x.se.ParentFlowName(), x.se.HostTask())
		return
	}
	st := e.FlowStatus()
	var want event.Status
	switch {
	case c.parent == nil && k.stopped:
		want = event.FAILED
	case c.parent != nil && k.lenient(c.parent), k.conc && c.host != nil && c.host.c.isShadow:
		want = st
	case c.status == csCompleted:
		want = event.COMPLETED
	case c.status == csFailed:
		want = event.FAILED
	default:
		want = event.CANCELLED
	}
	if st != want {
		m.fail("flow %s is published to be %s, want %s", c.pid, st, want)
		return
	}
	switch st {
	case event.COMPLETED:
		if c.status == csCompleted && m.feat["reply"] == 0 && !dataMatch(c.outs, e.FlowOutput()) {
			m.fail("flow %s is published to have completed with %s, want %s", c.pid, show2(e.FlowOutput()), show2(c.outs))
			return
		}
		if c.parent == nil && len(m.res) > 0 && !dataMatch(m.res[len(m.res)-1].Data, e.FlowOutput()) {
			m.fail("the run is published to have completed with %s, the caller gets %s", show2(e.FlowOutput()), m.outcome())
			return
		}
	case event.FAILED:
		if e.FlowError() == nil {
			m.fail("flow %s is published to have failed without an error", c.pid)
			return
		}
		if c.status == csFailed && !(k.stopped && c.parent == nil) && !strings.Contains(e.FlowError().Error(), c.ev.Tok) {
			m.fail("flow %s is published to have failed with %q, want an error about %q", c.pid, e.FlowError(), c.ev.Tok)
			return
		}
		if c.parent == nil && len(m.res) > 0 && m.res[len(m.res)-1].Err != nil && m.res[len(m.res)-1].Err.Error() != e.FlowError().Error() {
			m.fail("the run is published to have failed with %q, the caller gets %s", e.FlowError(), m.outcome())
			return
		}
	}
	if st != event.COMPLETED && len(e.FlowOutput()) > 0 {
		m.fail("flow %s is published to be %s with outputs %s", c.pid, st, show2(e.FlowOutput()))
		return
	}
	if st != event.FAILED && e.FlowError() != nil {
		m.fail("flow %s is published to be %s with error %v", c.pid, st, e.FlowError())
		return
	}
	isOut := false
	for _, p := range c.flow.Out {
		if p.Name == "pid" {
			isOut = true
		}
	}
	if _, ok := c.outs["pid"]; !ok && !isOut && e.FlowInput()["pid"] != c.pid {
		m.fail("flow %s is published to end with input pid = %s", c.pid, show(e.FlowInput()["pid"]))
		return
	}
	if c.parent != nil {
		p := k.by[c.parent.pid]
		if p == nil || x.start < p.start || p.end >= 0 && x.end > p.end {
			m.fail("flow %s is not published to run while its caller does", c.pid)
			return
		}
		hs := p.tasks[c.host.t.ID]
		if k.tasks && (len(hs) == 0 || hs[0] > x.start) {
			m.fail("flow %s is published to start before the task %s that calls it", c.pid, c.host.t.ID)
			return
		}
	}
	if e.Time().Before(x.se.Time()) {
		m.fail("flow %s is published to end before it starts", c.pid)
		return
	}
	for i := range m.facts {
		f := &m.facts[i]
		if f.Pid != c.pid || f.C != c {
			continue
		}
		if f.Kind == "begin" && f.T.Before(x.se.Time()) {
			m.fail("task %s of flow %s begins before the flow starts", f.Task, c.pid)
			return
		}
		if (f.Kind == "end" || f.Kind == "enderr") && !k.conc && f.T.After(e.Time()) {
			m.fail("flow %s is published to end before task %s has ended", c.pid, f.Task)
			return
		}
	}
}

func (k *evCheck) task(recs []*evRec, x *evFlow, tid string, at []int, f *taskFacts) {
	m, c := k.m, x.c
	g := c.flow.G
	t := g.task(tid)
	if t == nil && c.flow.EH != nil {
		g = c.flow.EH
		t = g.task(tid)
	}
	if t == nil {
		m.fail("an event is published for task %q of flow %s, which does not exist", tid, c.pid)
		return
	}
	if f == nil {
		f = &taskFacts{}
	}
	lenient := k.lenient(c)
	var sts []string
	var started, waiting, skipped, sched int
	state := 0 // 0 nothing, 1 scheduled, 2 started, 3 ended, 4 skipped
	var last event.TaskEvent
	var first event.TaskEvent
	startPos, endPos := -1, -1
	for _, pos := range at {
		e := recs[pos].t
		sts = append(sts, string(e.TaskStatus()))
		last = e
		if e.TaskName() != t.Name || e.FlowName() != c.flow.Name {
			m.fail("task %s of flow %s is published as %q of %q", tid, c.pid, e.TaskName(), e.FlowName())
			return
		}
		if (t.Sub > 0) != strings.HasSuffix(e.ActivityRef(), "/subflow") {
			m.fail("task %s of flow %s is published to be activity %q", tid, c.pid, e.ActivityRef())
			return
		}
		bad := false
		switch e.TaskStatus() {
		case event.SCHEDULED:
			sched++
			bad = state > 1
			state = 1
		case event.STARTED:
			started++
			bad = state != 1 && !(state == 2 && (t.Loop != nil || t.Sub > 0))
			state = 2
			if startPos < 0 {
				startPos, first = pos, e
			}
		case event.WAITING:
			waiting++
			bad = state != 2 || (t.Loop == nil && t.Sub == 0)
		case event.COMPLETED, event.FAILED:
			bad = state != 2
			state = 3
			endPos = pos
		case event.SKIPPED:
			skipped++
			bad = state != 1 && state != 4
			state = 4
			endPos = pos
		default:
			bad = true
		}
		if bad {
			m.fail("the published states of task %s of flow %s are not in order: %s", tid, c.pid, strings.Join(sts, " "))
			return
		}
		if k.flows && pos < x.start || x.end >= 0 && pos > x.end {
			if k.conc && pos > x.end && x.end >= 0 && (e.TaskStatus() == event.WAITING || e.TaskStatus() == event.STARTED && started > 1) {
				continue
			}
			m.fail("task %s of flow %s is published to be %s outside the life of the flow", tid, c.pid, e.TaskStatus())
			return
		}
		if e.TaskStatus() != event.FAILED && e.TaskError() != nil || e.TaskStatus() != event.COMPLETED && len(e.TaskOutput()) > 0 {
			m.fail("task %s of flow %s is published to be %s with outputs %s, error %v", tid, c.pid, e.TaskStatus(), show2(e.TaskOutput()), e.TaskError())
			return
		}
	}
	st := last.TaskStatus()
	says := strings.Join(sts, " ")
	hasSetFail := false
	for _, y := range append(append([]*Task{}, c.flow.G.Tasks...), ehTasks(c.flow)...) {
		if y.SetFail != nil {
			hasSetFail = true
		}
	}
	// what is published must have happened
	switch {
	case st == event.COMPLETED && !f.done && !f.condfail,
		st == event.FAILED && !f.fail,
		skipped > 0 && !f.skip,
		started > 0 && !f.enabled && !hasSetFail:
		if !(k.conc && lenient) {
			m.fail("task %s of flow %s is published to be %s, which it was not", tid, c.pid, says)
			return
		}
	}
	// what happened must be published
	if !lenient {
		var want event.Status
		switch {
		case f.done || f.condfail:
			want = event.COMPLETED
		case f.fail:
			want = event.FAILED
		case f.skip && f.skipAt < k.lastWork[c.pid] && !k.ahead[c.pid] && !k.conc:
			want = event.SKIPPED
		}
		if want != "" && st != want {
			m.fail("task %s of flow %s is published to be %s, want %s", tid, c.pid, says, want)
			return
		}
		if f.enabled && started == 0 && !hasSetFail || f.begun > 0 && started == 0 {
			m.fail("task %s of flow %s is published to be %s, although it was started", tid, c.pid, says)
			return
		}
		if t.Sub > 0 && f.begun > 0 && waiting == 0 {
			m.fail("task %s of flow %s is published to be %s, although it waited for its subflow", tid, c.pid, says)
			return
		}
	}
	// the order of what is published and what happened
	if first != nil && f.firstBegin != nil && f.firstBegin.T.Before(first.Time()) {
		m.fail("task %s of flow %s is executed before it is published to be started", tid, c.pid)
		return
	}
	if (st == event.COMPLETED || st == event.FAILED) && f.lastEnd != nil && f.lastEnd.T.After(last.Time()) {
		m.fail("task %s of flow %s is published to be %s before its execution has ended", tid, c.pid, st)
		return
	}
	if startPos >= 0 || skipped > 0 {
		pos := startPos
		if pos < 0 {
			pos = endPos
		}
		for _, l := range incoming(g, tid) {
			ok := false
			for _, p := range x.tasks[l.From] {
				s := recs[p].t.TaskStatus()
				if p < pos && (s == event.COMPLETED || s == event.FAILED || s == event.SKIPPED) {
					ok = true
				}
			}
			if !ok {
				m.fail("task %s of flow %s is published to be %s before its predecessor %s has ended", tid, c.pid, recs[pos].t.TaskStatus(), l.From)
				return
			}
		}
	}
	for _, kid := range m.all {
		if kid.parent == nil || kid.parent.pid != c.pid || kid.host.t.ID != tid || endPos < 0 {
			continue
		}
		if y := k.by[kid.pid]; y != nil && k.flows && y.end > endPos {
			m.fail("task %s of flow %s is published to be %s before the flow it called has ended", tid, c.pid, st)
			return
		}
	}
	// data
	if (st == event.COMPLETED || st == event.FAILED) && f.lastBegin != nil && !f.mapfail && !(k.conc && lenient) {
		for _, n := range sortedKeys(f.lastBegin.In) {
			if t.Sub > 0 && (n == "pid" || param(m.cs.Flows[t.Sub-1].In, n) == nil) {
				continue
			}
			v, ok := last.TaskInput()[n]
			if !ok && f.lastBegin.In[n] != nil || !match(f.lastBegin.In[n], v) {
				m.fail("task %s of flow %s is published to be %s with input %s = %s, it got %s", tid, c.pid, st, n, show(v), show(f.lastBegin.In[n]))
				return
			}
		}
		for n, v := range last.TaskInput() {
			if _, ok := f.lastBegin.In[n]; !ok && t.Sub == 0 && !zeroish(v) {
				m.fail("task %s of flow %s is published to be %s with input %s = %s, which it did not get", tid, c.pid, st, n, show(v))
				return
			}
		}
	}
	if st == event.COMPLETED && f.exec != nil && !(k.conc && lenient) {
		for _, n := range sortedKeys(f.exec.Out) {
			v, ok := last.TaskOutput()[n]
			if !ok && f.exec.Out[n] != nil || !match(f.exec.Out[n], v) {
				m.fail("task %s of flow %s is published to be completed with output %s = %s, it produced %s", tid, c.pid, n, show(v), show(f.exec.Out[n]))
				return
			}
		}
		for n, v := range last.TaskOutput() {
			if t.Sub > 0 {
				if p := param(m.cs.Flows[t.Sub-1].Out, n); p != nil && p.Value != nil && match(p.Value, v) {
					continue // declared value
				}
			}
			if _, ok := f.exec.Out[n]; !ok && !zeroish(v) {
				m.fail("task %s of flow %s is published to be completed with output %s = %s, which it did not produce", tid, c.pid, n, show(v))
				return
			}
		}
	}
	if st == event.FAILED {
		if last.TaskError() == nil {
			m.fail("task %s of flow %s is published to have failed without an error", tid, c.pid)
			return
		}
		if f.fail && !strings.Contains(last.TaskError().Error(), f.failTok) {
			m.fail("task %s of flow %s is published to have failed with %q, want an error about %q", tid, c.pid, last.TaskError(), f.failTok)
			return
		}
	}
}

func ehTasks(f *Flow) []*Task {
	if f.EH == nil {
		return nil
	}
	return f.EH.Tasks
}

func param(ps []*Param, n string) *Param {
	for _, p := range ps {
		if p.Name == n {
			return p
		}
	}
	return nil
}

func zeroish(v interface{}) bool {
	switch t := v.(type) {
	case nil:
		return true
	case map[string]interface{}:
		return len(t) == 0
	case []interface{}:
		return len(t) == 0
	}
	return v == false || v == "" || same(v, 0)
}

func init() {
	register(&Prop{ID: "C11", Quick: 90000, Thorough: 1000000, Run: runC11, Init: initC11,
		Variants: []Variant{seqVar, concVar, {Name: "sequential-2"}, limitVar("limit-12", "12"), limitVar("concurrent-limit-9", "9", conEnv),
			{Name: "flows-only"}, {Name: "tasks-only"}, {Name: "small-queue", Env: []string{"FLOGO_EVENT_QUEUE_SIZE=1"}}, raceConcVar, raceSeqVar},
		Rule: "Flows with subflows, loops, retries, skips, failures, handlers and returns, sequential and concurrent (with abandoned work), some stopped by the step limit, observed by listeners for flow events, task events or both; non-trivial: at least eight events and a subflow, a skipped task or a failure",
	})
}
