package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	flowsupport "github.com/project-flogo/flow/support"
)

// C13: parallel runs. Each run has its own model, which judges it as if it
// were alone.

// Stepper interleaves runs: it lets one or several of them go on whenever all
// of them are held in an activity
type Stepper struct {
	mu     sync.Mutex
	live   int
	wait   map[int]chan struct{}
	choose func(n int) int
	max    int
	moves  int
}

func (t *Stepper) enter(i int) {
	ch := make(chan struct{})
	t.mu.Lock()
	t.wait[i] = ch
	t.release()
	t.mu.Unlock()
	<-ch
}

func (t *Stepper) leave() {
	t.mu.Lock()
	t.live--
	t.release()
	t.mu.Unlock()
}

func (t *Stepper) release() {
	if len(t.wait) < t.live || len(t.wait) == 0 {
		return
	}
	var ids []int
	for i := 0; i < 64; i++ {
		if t.wait[i] != nil {
			ids = append(ids, i)
		}
	}
	if len(ids) > t.max {
		t.max = len(ids)
	}
	k := 1
	if len(ids) > 1 && t.choose(2) > 0 {
		k = 2 + t.choose(len(ids)-1)
	}
	t.moves++
	for ; k > 0; k-- {
		j := t.choose(len(ids))
		close(t.wait[ids[j]])
		delete(t.wait, ids[j])
		ids = append(ids[:j], ids[j+1:]...)
	}
}

var seenIDs sync.Map // instance ids of this process

// prog is a program of which several runs are made
type prog struct {
	l      *Loaded
	ic     *C12Case
	remote []*remote
	names  []string
	plain  bool // can be run without its interceptor
}

func genC13Case(s *Src, conc bool) *Case {
	if conc {
		return genC14(s)
	}
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 3, 4
	p.Sub, p.Loop, p.Retry = 30, 20, 8
	p.Fail, p.Panic, p.EH, p.ErrLink = 12, 20, 30, 15
	p.Ctx, p.SetOut, p.Return, p.Reply = 15, 30, 5, 8
	p.Risky, p.MapFail, p.SetFail, p.CondFail = 10, 10, 4, 4
	return genCase(s, p)
}

// withInputs is the program with other inputs
func (cs *Case) withInputs(s *Src) *Case {
	c := *cs
	c.In = map[string]interface{}{}
	for _, p := range cs.Flows[0].In {
		if p.Value != nil && s.P(40) || p.Value == nil && p.Name[0] == 'u' && s.P(50) {
			continue
		}
		c.In[p.Name] = genLitOf(s, p.Type)
	}
	return &c
}

// forRun is the interceptor of one run
func (c *C12Case) forRun(cs *Case, k int) *C12Case {
	n := *c
	n.Case = cs
	n.Icepts = nil
	sub := func(m map[string]interface{}) map[string]interface{} {
		r := copyMap(m)
		for x, v := range r {
			if v == "mocked" || v == "overridden" {
				r[x] = fmt.Sprintf("%v-%d", v, k)
			}
		}
		return r
	}
	for _, ic := range c.Icepts {
		x := *ic
		x.Inputs, x.InWant, x.Outputs, x.OutWant = sub(x.Inputs), sub(x.InWant), sub(x.Outputs), sub(x.OutWant)
		n.Icepts = append(n.Icepts, &x)
	}
	return &n
}

func (p *prog) load(s *Src, cs *Case) error {
	n := atomic.AddInt64(&caseSeq, 1)
	ids := cs.flowIDs(n)
	p.l = &Loaded{cs: cs}
	for i := range cs.Flows {
		if s.P(60) {
			p.remote = append(p.remote, nil)
			p.names = append(p.names, "res")
			p.l.uris = append(p.l.uris, "res://"+ids[i])
			continue
		}
		r := newRemote(s, nil)
		if s.P(40) {
			r.delay = time.Duration(s.N(4)) * 200 * time.Microsecond
		}
		p.remote = append(p.remote, r)
		p.names = append(p.names, r.Kind)
		p.l.uris = append(p.l.uris, r.uri)
	}
	uri := func(i int) string { return p.l.uris[i] }
	for i, r := range p.remote {
		doc := cs.Flows[i].JSON(uri)
		if r != nil {
			r.put(r.encode(s, doc))
		} else if _, err := loadRes(ids[i], doc); err != nil {
			return err
		}
	}
	return nil
}

func (p *prog) unload() {
	p.l.unload()
	for _, r := range p.remote {
		if r != nil {
			r.close()
		}
	}
}

func runC13(cx *Cx) *Outcome {
	s := cx.S
	conc := len(cx.Var.Env) > 0
	o := &Outcome{Feat: map[string]int{}}
	var progs []*prog
	var cases []interface{}
	var vmu sync.Mutex
	fail := func(f string, a ...interface{}) *Outcome {
		vmu.Lock()
		defer vmu.Unlock()
		if o.Viol == "" {
			o.Viol = fmt.Sprintf(f, a...)
		}
		return o
	}
	for i, n := 0, 1+s.N(3); i < n; i++ {
		p := &prog{}
		var cs *Case
		if s.P(35) {
			p.ic = genC12(s, conc)
			cs = p.ic.Case
			p.plain = true
			for _, ic := range p.ic.Icepts {
				p.plain = p.plain && !p.ic.replaced(ic)
			}
			cases = append(cases, p.ic)
		} else {
			cs = genC13Case(s, conc)
			cases = append(cases, cs)
		}
		defer func() {
			if p.l != nil {
				p.unload()
			}
		}()
		if err := p.load(s, cs); err != nil {
			return fail("a valid flow is rejected: %v", err)
		}
		progs = append(progs, p)
	}
	type one struct {
		p   *prog
		cs  *Case
		ic  *C12Case
		x   *flowsupport.Interceptor
		opt *RunOpts
		own bool // its own action
		r   *Run
		id  string
	}
	var rs []*one
	lens := []int{2, 3, 4, 6, 10}
	n := lens[s.N(len(lens))]
	shared := map[*prog]action.Action{}
	mode := s.N(3)
	for i := 0; i < n; i++ {
		p := progs[s.N(len(progs))]
		e := &one{p: p, cs: p.l.cs, own: s.P(50)}
		if s.P(75) {
			e.cs = p.l.cs.withInputs(s)
		}
		ro := &instance.RunOptions{Op: instance.OpStart}
		use := s.P(30)
		if p.ic != nil && (!p.plain || s.P(50)) {
			e.ic = p.ic.forRun(e.cs, i)
			e.x = e.ic.build()
			ro.ExecOptions = &instance.ExecOptions{Interceptor: e.x}
			use = true
		}
		given := use && s.P(40)
		e.opt = &RunOpts{Conc: conc, Sleep: mode == 0}
		e.opt.Prepare = func(r *Run) {
			if given {
				e.id = "A" + r.M.pid
				ro.PreservedInstanceId = e.id
				r.M.givenID = true
				o.Feat["given-id"]++
			}
			if e.ic != nil {
				e.ic.hooks(r.M)
				o.Feat["intercepted-run"]++
			}
		}
		if use {
			e.opt.RO = ro
		}
		rs = append(rs, e)
	}
	o.Feat["runs"] = n
	o.Case = map[string]interface{}{"programs": cases, "runs": n, "mode": mode}
	var err error
	for _, p := range progs {
		if !within(func() {
			shared[p], err = factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": p.l.uris[0]}})
		}) {
			o.Hang = true
			return fail("hang: no action is created for the flow")
		}
		if err != nil {
			return fail("no action is created for a valid flow: %v", err)
		}
	}
	var st *Stepper
	if mode == 1 && !conc {
		st = &Stepper{live: n, wait: map[int]chan struct{}{}, choose: s.N}
	}
	var delays []byte
	for i := 0; i < 64; i++ {
		delays = append(delays, byte(s.N(6)))
	}
	var dn int32
	// models are created beforehand, as options are prepared one after another
	for i, e := range rs {
		i, e := i, e
		e.r = newRun(e.cs, e.opt)
		defer endRun(e.r.M.pid)
		e.opt.Prepare(e.r)
		e.opt.Prepare = nil
		e.r.onAct = func(ti *TI, _ activity.Context) {
			if st != nil {
				st.enter(i)
				return
			}
			if mode == 2 {
				switch d := delays[atomic.AddInt32(&dn, 1)%64]; {
				case d < 2:
				case d < 4:
					runtime.Gosched()
				case d == 4:
					time.Sleep(30 * time.Microsecond)
				default:
					time.Sleep(150 * time.Microsecond)
				}
			}
		}
	}
	// callers that look the flows up meanwhile
	stop := make(chan struct{})
	var lwg sync.WaitGroup
	defs := map[string]*definition.Definition{}
	for i, k := 0, s.N(3); i < k; i++ {
		var uris []string
		for j := 0; j < 3; j++ {
			p := progs[s.N(len(progs))]
			uris = append(uris, p.l.uris[s.N(len(p.l.uris))])
		}
		lwg.Add(1)
		go func() {
			defer lwg.Done()
			for j := 0; ; j++ {
				u := uris[j%len(uris)]
				d, _, err := flowsupport.GetDefinition(u)
				if err != nil || d == nil {
					fail("the flow cannot be looked up at %s: %v", u, err)
					return
				}
				vmu.Lock()
				old := defs[u]
				defs[u] = d
				vmu.Unlock()
				if old != nil && old != d {
					fail("two callers get different definitions of %s", u)
				}
				select {
				case <-stop:
					return
				case <-time.After(50 * time.Microsecond):
				}
			}
		}()
		o.Feat["lookup"]++
	}
	var wg sync.WaitGroup
	for i, e := range rs {
		i, e := i, e
		wg.Add(1)
		go func() {
			defer wg.Done()
			if st != nil {
				defer st.leave()
				st.enter(i)
			}
			l := &Loaded{cs: e.cs, uris: e.p.l.uris, act: shared[e.p]}
			if e.own {
				a, err := factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": l.uris[0]}})
				if err != nil {
					fail("no action is created for a valid flow: %v", err)
					return
				}
				l.act = a
			}
			if err := l.execRun(e.r, e.opt); err == errTimeout {
				vmu.Lock()
				o.Hang = true
				vmu.Unlock()
			}
		}()
	}
	wg.Wait()
	close(stop)
	lwg.Wait()
	both := 0
	for i, e := range rs {
		m := e.r.M
		m.mu.Lock()
		if e.ic != nil && !conc && m.viol == "" {
			e.ic.check(m, e.x)
		}
		if m.viol != "" && o.Viol == "" {
			o.Viol = fmt.Sprintf("run %d (%s): %s", i, m.pid, m.viol)
			o.Hist = append([]string{}, m.hist...)
		}
		if m.execs > 1 {
			both++
		}
		o.Feat = merge(o.Feat, m.feat)
		o.Feat["executions"] += m.execs
		for _, k := range m.all {
			if k.id == nil || !k.id.Bound {
				continue
			}
			id := fmt.Sprint(k.id.Val)
			if old, ok := seenIDs.LoadOrStore(id, k.pid); ok && o.Viol == "" {
				o.Viol = fmt.Sprintf("runs %v and %v have the same instance id %s", old, k.pid, id)
			}
		}
		if e.id != "" && m.root.id.Bound && fmt.Sprint(m.root.id.Val) != e.id && o.Viol == "" {
			o.Viol = fmt.Sprintf("run %s has instance id %v, not the given one", m.pid, m.root.id.Val)
		}
		m.mu.Unlock()
	}
	for _, p := range progs {
		for i, r := range p.remote {
			if r != nil && !r.isFile() && r.requests() > 1 {
				fail("flow %d (%s) was fetched %d times", i, p.names[i], r.requests())
			}
		}
	}
	if st != nil {
		o.Feat["interleavings"] += st.moves
		o.Feat["held-at-once"] += st.max
	}
	o.Non = both > 1
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !conc {
		o.Viol = "after its run had ended: " + orph[0]
	}
	return o
}

func init() {
	register(&Prop{ID: "C13", Quick: 24000, Thorough: 400000, Run: runC13,
		Init: func(v *Variant) { initEngine(nil, nil); startRemotes() },
		// concurrent runs spin while they wait, so that there are fewer of them
		Variants: []Variant{seqVar, raceSeqVar, {Name: "concurrent", Env: concVar.Env, Part: 8}, {Name: "concurrent-race", Env: concVar.Env, Race: true, Part: 30}},
		Rule:     "Two to ten runs at once of up to three flows, which come from resources, files and a server, with different inputs, interceptors and given ids, interleaved at their activities in a chosen or random order, while other callers look the flows up; non-trivial: at least two of the runs executed more than one activity"})
}
