package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/support/service"
	flowstate "github.com/project-flogo/flow/state"
)

// C23: detached subflows. Each detached run is judged by a model of its own,
// in which the called flow is the flow that is run.

// endSvc is a recorder that tells when runs start and end
type endSvc struct {
	mu     sync.Mutex
	starts map[string][]*flowstate.FlowState // by run
	ends   map[string][]*flowstate.FlowState
	wait   map[string]chan struct{}
	inputs map[string]map[string]interface{}
}

var ends = &endSvc{}

func (s *endSvc) Name() string { return "ends" }
func (s *endSvc) Start() error { return nil }
func (s *endSvc) Stop() error  { return nil }

func (s *endSvc) reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.starts, s.ends = map[string][]*flowstate.FlowState{}, map[string][]*flowstate.FlowState{}
	s.wait = map[string]chan struct{}{}
	s.inputs = map[string]map[string]interface{}{}
}

func (s *endSvc) RecordStart(st *flowstate.FlowState) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	pid, _ := st.FlowInputs["pid"].(string)
	s.starts[pid] = append(s.starts[pid], st)
	s.inputs[pid] = copyMap(st.FlowInputs)
	return nil
}

func (s *endSvc) RecordDone(st *flowstate.FlowState) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	pid, _ := st.FlowInputs["pid"].(string)
	s.ends[pid] = append(s.ends[pid], st)
	if ch := s.wait[pid]; ch != nil && len(s.ends[pid]) == 1 {
		close(ch)
	}
	return nil
}

func (s *endSvc) RecordSnapshot(*flowstate.Snapshot) error { return nil }
func (s *endSvc) RecordStep(*flowstate.Step) error         { return nil }

func (s *endSvc) expect(pid string) chan struct{} {
	s.mu.Lock()
	defer s.mu.Unlock()
	ch := make(chan struct{})
	s.wait[pid] = ch
	return ch
}

type detached struct {
	r     *Run
	in    map[string]interface{}
	by    string
	ended chan struct{} // the recorder has been told
}

const (
	detFree  = iota // runs as it likes
	detHold         // its activities wait for the end of the caller
	detFirst        // the caller waits for its end
	detDelay        // activities of all runs take a little while
	detModes
)

type c23 struct {
	mu   sync.Mutex
	cs   *Case
	ds   []*detached
	mode int
	rec  bool
	conc bool
	done chan struct{} // the caller has ended
	dl   []byte
	dn   int32
}

func (c *c23) snapshot() []*detached {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*detached{}, c.ds...)
}

func (c *c23) delay() {
	switch d := c.dl[int(atomic.AddInt32(&c.dn, 1))%len(c.dl)]; {
	case d == 0:
		time.Sleep(50 * time.Microsecond)
	case d < 4:
		runtime.Gosched()
	}
}

// settled waits until the run has ended, as far as its model knows
func (d *detached) settled(limit time.Duration) bool {
	for t := time.Now(); time.Since(t) < limit; time.Sleep(20 * time.Microsecond) {
		d.r.M.mu.Lock()
		ok := d.r.M.root.status != csActive || d.r.M.viol != ""
		d.r.M.mu.Unlock()
		if ok {
			return true
		}
	}
	return false
}

func (c *c23) onDetach(by string) func(ti *TI, fi int, in map[string]interface{}) string {
	return func(ti *TI, fi int, in map[string]interface{}) string {
		r := newRun(c.cs, &RunOpts{Conc: c.conc})
		r.detached = true
		r.M.fi, r.M.in = fi, copyMap(in)
		r.M.onDetach = c.onDetach(r.M.pid)
		d := &detached{r: r, in: copyMap(in), by: ti.c.pid + "/" + ti.t.ID}
		d.in["pid"] = r.M.pid
		if c.rec {
			d.ended = ends.expect(r.M.pid)
		}
		r.onAct = func(*TI, activity.Context) {
			switch c.mode {
			case detHold:
				<-c.done
			case detDelay:
				c.delay()
			}
		}
		c.mu.Lock()
		c.ds = append(c.ds, d)
		c.mu.Unlock()
		r.M.Start()
		return r.M.pid
	}
}

func runC23(cx *Cx) *Outcome {
	s := cx.S
	conc := len(cx.Var.Env) > 0
	c := &c23{conc: conc, rec: cx.Var.Part == 1, mode: s.N(detModes), done: make(chan struct{})}
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 3, 4
	p.Sub, p.Detached, p.BadURI = 50, 75, 4
	p.Loop, p.Retry, p.Fail, p.Panic = 12, 8, 20, 20
	p.ErrLink, p.EH, p.Maps, p.MaxIter = 15, 40, 2, 3
	p.MapFail, p.Risky, p.Ctx, p.SetOut = 15, 15, 15, 25
	p.CondFail, p.SetFail, p.Return, p.EmptyFlow = 4, 4, 5, 4
	if conc {
		p.Terminals = s.N(2)
		p.SetFail, p.SetOut, p.Ctx, p.Panic, p.EmptyFlow, p.BadURI = 0, 0, 0, 0, 0, 0
	}
	cs := genCase(s, p)
	c.cs = cs
	// replies of detached runs reach nobody
	if !conc {
		for fi, f := range cs.Flows {
			if fi == 0 || !s.P(20) || !cs.onlyDetached(fi) {
				continue
			}
			for _, t := range f.G.Tasks {
				if t.Sub == 0 && t.Loop == nil && len(t.Script) == 0 && s.P(50) {
					t.Script = []Beh{{Kind: "ok", Reply: map[string]interface{}{"reply": "r"}}}
				}
			}
		}
	}
	for i := 0; i < 32; i++ {
		c.dl = append(c.dl, byte(s.N(8)))
	}
	o := &Outcome{Case: map[string]interface{}{"flows": cs, "mode": c.mode}, Feat: map[string]int{}}
	if c.rec {
		ends.reset()
	}
	l, err := load(cs)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	// two runs of the caller, as the flow is called again by another request
	for n := 1 + s.Pick(3, 1); n > 0 && o.Viol == ""; n-- {
		c.one(l, o, s)
		c.ds, c.done = nil, make(chan struct{})
	}
	o.Non = o.Feat["detached-runs"] > 0
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !conc {
		o.Viol = "after the runs had ended: " + orph[0]
	}
	return o
}

// onlyDetached: all calls of the flow are detached
func (cs *Case) onlyDetached(fi int) bool {
	n := 0
	for _, f := range cs.Flows {
		for _, g := range []*Graph{f.G, f.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				if t.Sub == fi+1 {
					if !t.Detached {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

func (c *c23) one(l *Loaded, o *Outcome, s *Src) {
	ro := &RunOpts{Conc: c.conc}
	r := newRun(c.cs, ro)
	defer endRun(r.M.pid)
	r.M.onDetach = c.onDetach(r.M.pid)
	r.onAct = func(*TI, activity.Context) {
		switch c.mode {
		case detDelay:
			c.delay()
		case detFirst:
			for _, d := range c.snapshot() {
				if d.ended != nil {
					select {
					case <-d.ended:
					case <-time.After(runLimit):
					}
				} else {
					d.settled(runLimit)
				}
			}
		}
	}
	var once sync.Once
	release := func() { once.Do(func() { close(c.done) }) }
	defer release()
	if c.mode == detHold && c.conc {
		// nothing more than the other modes
		release()
	}
	err := l.execRun(r, ro)
	release()
	if err == errTimeout {
		o.Hang = true
	}
	take := func(m *Model, what string) bool {
		m.mu.Lock()
		defer m.mu.Unlock()
		for k, v := range m.feat {
			o.Feat[k] += v
		}
		o.Feat["executions"] += m.execs
		if m.viol != "" && o.Viol == "" {
			o.Viol, o.Hist = what+m.viol, append([]string{}, m.hist...)
		}
		return m.viol == ""
	}
	if !take(r.M, "") {
		time.Sleep(5 * time.Millisecond)
		for _, d := range c.snapshot() {
			endRun(d.r.M.pid)
			take(d.r.M, "a detached run: ")
		}
		return
	}
	defer func() {
		for _, d := range c.snapshot() {
			endRun(d.r.M.pid)
		}
	}()
	// further detached runs may be started by detached runs
	for i := 0; i < len(c.snapshot()) && o.Viol == ""; i++ {
		d := c.snapshot()[i]
		c.judge(d, o, take)
	}
	if !c.rec {
		// runs that do not end are noticed by what they go on to do
		time.Sleep(200 * time.Microsecond)
		for _, d := range c.snapshot() {
			take(d.r.M, fmt.Sprintf("detached run %s (called by %s): ", d.r.M.pid, d.by))
		}
	}
	o.Feat["detached-runs"] += len(c.snapshot())
}

func (c *c23) judge(d *detached, o *Outcome, take func(m *Model, what string) bool) {
	m := d.r.M
	what := fmt.Sprintf("detached run %s (called by %s): ", m.pid, d.by)
	if d.ended == nil {
		if !d.settled(runLimit) {
			m.mu.Lock()
			var left []string
			m.left(m.root, &left)
			m.fail("hang: does not end, left to do: %v", left)
			m.mu.Unlock()
			o.Hang = true
		}
		take(m, what)
		return
	}
	select {
	case <-d.ended:
	case <-time.After(runLimit):
		o.Hang = true
		m.mu.Lock()
		m.fail("hang: is not recorded to have ended")
		m.mu.Unlock()
		take(m, what)
		return
	}
	m.recorded(d.in)
	take(m, what)
}

// recorded judges what the recorder was told about the run
func (m *Model) recorded(want map[string]interface{}) {
	ends.mu.Lock()
	starts, dones, in := ends.starts[m.pid], ends.ends[m.pid], ends.inputs[m.pid]
	ends.mu.Unlock()
	m.mu.Lock()
	switch {
	case m.viol != "":
	case len(starts) != 1 || len(dones) != 1:
		m.fail("recorded to have started %d times and to have ended %d times", len(starts), len(dones))
	case !match(want, in):
		m.fail("started with inputs %s, want %s", show(in), show(want))
	case dones[0].FlowInstanceId != starts[0].FlowInstanceId || dones[0].FlowInstanceId == "" || !match(m.root.id, dones[0].FlowInstanceId):
		m.fail("instance ids %q, %q, in activities %q", starts[0].FlowInstanceId, dones[0].FlowInstanceId, m.root.id.Val)
	case dones[0].FlowName != m.root.flow.Name:
		m.fail("it is a run of flow %q, want %q", dones[0].FlowName, m.root.flow.Name)
	case m.root.status == csActive:
		var left []string
		m.left(m.root, &left)
		m.fail("ended (%s) although there is something left to do: %v", dones[0].FlowStats, left)
	case m.root.status == csCompleted:
		if dones[0].FlowStats != "Completed" {
			m.fail("ended with status %s, want Completed", dones[0].FlowStats)
		} else if !dataMatch(m.root.outs, dones[0].FlowOutputs) && !m.replied() {
			m.fail("ended with outputs %s, want %s", show2(dones[0].FlowOutputs), show2(m.root.outs))
		}
		m.feat["recorded-completed"]++
	case m.root.status == csFailed:
		if dones[0].FlowStats != "Failed" {
			m.fail("ended with status %s, want Failed (%s)", dones[0].FlowStats, m.root.ev.Tok)
		}
		m.feat["recorded-failed"]++
	}
	if m.viol == "" {
		m.checkIDs()
	}
	m.mu.Unlock()
}

// replied: an activity of the flow replies
func (m *Model) replied() bool {
	for _, g := range []*Graph{m.root.flow.G, m.root.flow.EH} {
		if g == nil {
			continue
		}
		for _, t := range g.Tasks {
			for _, b := range t.Script {
				if b.Reply != nil {
					return true
				}
			}
		}
	}
	return false
}

func initC23(v *Variant) {
	if v.Part == 1 {
		initEngine([]service.Service{ends}, map[string]interface{}{"stateRecordingMode": "off"})
		return
	}
	initEngine(nil, nil)
}

func init() {
	concRec := Variant{Name: "concurrent", Env: concVar.Env, Part: 1}
	register(&Prop{ID: "C23", Quick: 20000, Thorough: 400000, Run: runC23, Init: initC23,
		Variants: []Variant{{Name: "recorded", Part: 1}, seqVar, concRec, raceSeqVar, raceConcVar},
		Rule:     "Flows with detached subflows (succeeding, failing, slow, nested, in loops, in handlers, of flows that do not exist), each detached run with its own model; activities of detached runs wait for the end of the caller or the caller waits for theirs; non-trivial: at least one detached run"})
}
