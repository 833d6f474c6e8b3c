package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	flowstate "github.com/project-flogo/flow/state"
	flowsupport "github.com/project-flogo/flow/support"
)

// C09: a run is saved between two steps, loaded and restarted, possibly several
// times; the model of the run just goes on.

type savePoint struct {
	At     int  `json:"at"`     // number of steps before the save
	How    int  `json:"how"`    // 0: saved only, 1: restarted
	NewID  bool `json:"newId"`  // the restarted run gets another id
	Reload bool `json:"reload"` // the flows are loaded again before the restart
	Step   int  `json:"step"`   // 0: no initial step given
	Twice  bool `json:"twice"`  // saved again before and after the restart
}

type saveCase struct {
	Flows  *Case       `json:"case"`
	Saves  []savePoint `json:"saves"`
	Finish bool        `json:"finishThroughAction"`
}

// canonState brings a saved state into a form that can be compared
func canonState(b []byte) (interface{}, error) {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	srt := func(m map[string]interface{}, list, key string) {
		l, _ := m[list].([]interface{})
		sort.SliceStable(l, func(i, j int) bool {
			a, _ := l[i].(map[string]interface{})
			b, _ := l[j].(map[string]interface{})
			return fmt.Sprintf("%8v", a[key]) < fmt.Sprintf("%8v", b[key])
		})
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return v, nil
	}
	srt(m, "tasks", "id")
	srt(m, "links", "linkId")
	srt(m, "subFlows", "subFlowId")
	sf, _ := m["subFlows"].([]interface{})
	for _, s := range sf {
		if x, ok := s.(map[string]interface{}); ok {
			srt(x, "tasks", "id")
			srt(x, "links", "linkId")
		}
	}
	return v, nil
}

// diffState describes the first difference
func diffState(a, b interface{}, path string) string {
	ma, ok1 := a.(map[string]interface{})
	mb, ok2 := b.(map[string]interface{})
	if ok1 && ok2 {
		for _, k := range sortedKeys(ma) {
			if _, ok := mb[k]; !ok {
				return path + "." + k + " is lost"
			}
			if d := diffState(ma[k], mb[k], path+"."+k); d != "" {
				return d
			}
		}
		for _, k := range sortedKeys(mb) {
			if _, ok := ma[k]; !ok {
				return path + "." + k + " appears"
			}
		}
		return ""
	}
	la, ok1 := a.([]interface{})
	lb, ok2 := b.([]interface{})
	if ok1 && ok2 {
		if len(la) != len(lb) {
			return fmt.Sprintf("%s has %d instead of %d elements", path, len(lb), len(la))
		}
		for i := range la {
			if d := diffState(la[i], lb[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("%s is %v instead of %v", path, b, a)
	}
	return ""
}

func genC09(s *Src, conc bool) *saveCase {
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 4
	p.Sub, p.Loop, p.Retry = 28, 28, 12
	p.EH, p.ErrLink = 45, 15
	p.Fail, p.Panic = 18, 20
	p.Return, p.Reply = 6, 8
	p.Risky, p.MapFail, p.CondFail, p.SetFail = 12, 15, 4, 4
	p.SetOut, p.SetOK, p.Ctx = 30, 12, 12
	p.Maps = 3
	if conc {
		p.Return, p.Reply, p.Panic, p.SetFail = 4, 0, 0, 0
		p.SetOut, p.SetOK, p.Ctx = 0, 0, 0
		p.CondFail = 3
		p.Terminals = s.N(2)
	}
	sc := &saveCase{Flows: genCase(s, p)}
	m, _ := simulate(sc.Flows, 300)
	n := 1 + s.N(3)
	for i := 0; i < n; i++ {
		sp := savePoint{At: s.N(m.steps + 1), How: 1, NewID: s.P(25), Reload: s.P(25), Twice: s.P(50)}
		if s.P(20) {
			sp.How = 0
		}
		if s.P(35) {
			sp.Step = 1
		}
		sc.Saves = append(sc.Saves, sp)
	}
	sort.SliceStable(sc.Saves, func(i, j int) bool { return sc.Saves[i].At < sc.Saves[j].At })
	sc.Saves[len(sc.Saves)-1].How = 1
	sc.Finish = !s.P(15)
	return sc
}

// newIDs: the run goes on under another id
func (m *Model) newIDs() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.all {
		// also of those that have ended: the model may be ahead of the engine
		c.id = &Sym{}
		for sh := c.shadow; sh != nil; sh = sh.shadow {
			sh.id = c.id
		}
	}
}

// savedFeat notes what kind of state is saved
func (m *Model) savedFeat() (before bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.feat["saves"]++
	for _, c := range m.all {
		if c.status != csActive {
			continue
		}
		if c.parent != nil {
			m.feat["save-in-subflow"]++
		}
		if c.handling {
			m.feat["save-in-error-handler"]++
		}
		if c.epoch > 0 && len(c.kids) > 0 {
			m.feat["save-after-abandoned-work"]++
		}
		for _, id := range sortedKeys(c.ti) {
			ti := c.ti[id]
			if ti.t.Loop != nil && ti.n > 0 && (ti.state == tsEnabled || ti.state == tsSub) {
				m.feat["save-in-loop"]++
			}
		}
	}
	return m.execs > 0
}

func (l *Loaded) reload() error {
	uri := func(i int) string { return l.uris[i] }
	for i, f := range l.cs.Flows {
		if err := flowsupport.SetResource([]*resource.Config{{ID: l.uris[i][6:], Data: f.JSON(uri)}}); err != nil {
			return err
		}
	}
	return nil
}

func runC09(cx *Cx) *Outcome {
	conc := cx.Var.Name == "concurrent"
	sc := genC09(cx.S, conc)
	o := &Outcome{Case: sc, Feat: map[string]int{}}
	l, err := load(sc.Flows)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	ro := &RunOpts{Conc: conc}
	r := newRun(sc.Flows, ro)
	defer endRun(r.M.pid)
	m := r.M
	m.givenID = true
	viol := func(f string, a ...interface{}) {
		m.mu.Lock()
		m.fail(f, a...)
		m.mu.Unlock()
	}
	l.saveRun(sc, r, ro, viol, o)
	m.mu.Lock()
	defer m.mu.Unlock()
	o.Viol = m.viol
	o.Hist = append([]string{}, m.hist...)
	o.Feat = merge(o.Feat, m.feat)
	o.Feat["executions"] += m.execs
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !conc {
		o.Viol = "after the run had ended: " + orph[0]
	}
	o.Non = o.Feat["restart-in-the-middle"] > 0
	return o
}

func (l *Loaded) saveRun(sc *saveCase, r *Run, ro *RunOpts, viol func(f string, a ...interface{}), o *Outcome) {
	m := r.M
	def, _, err := flowsupport.GetDefinition(l.uris[0])
	if err != nil || def == nil {
		panic("harness: no definition")
	}
	logger := log.ChildLogger(log.RootLogger(), "saved")
	rec := instance.NewStateInstanceRecorder(nil, flowstate.RecordingModeOff, false)
	id := "I" + m.pid
	inst, err := instance.NewIndependentInstance(id, l.uris[0], def, rec, logger)
	if err != nil {
		panic("harness: " + err.Error())
	}
	in := copyMap(l.cs.In)
	if in == nil {
		in = map[string]interface{}{}
	}
	in["pid"] = m.pid
	inst.SetResultHandler(r)
	inst.UpdateStartTime()
	m.Start()
	inst.Start(in)
	steps := 0
	active := func() bool { return inst.Status() == model.FlowStatusActive }
	broken := func() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.viol != "" }
	ser := func(x *instance.IndependentInstance, what string) ([]byte, interface{}) {
		b, err := json.Marshal(x)
		if err != nil {
			viol("%s cannot be serialized: %v", what, err)
			return nil, nil
		}
		v, err := canonState(b)
		if err != nil {
			viol("%s is serialized to malformed JSON: %v", what, err)
			return nil, nil
		}
		return b, v
	}
	for i, sp := range sc.Saves {
		for steps < sp.At && active() {
			steps++
			if !inst.DoStep() {
				break
			}
		}
		if !active() || broken() {
			break
		}
		m.note("-- saved after %d steps", steps)
		before := m.savedFeat()
		b, v := ser(inst, "the instance")
		if b == nil {
			return
		}
		inst2 := &instance.IndependentInstance{}
		if err := json.Unmarshal(b, inst2); err != nil {
			viol("the saved instance cannot be deserialized: %v", err)
			return
		}
		if sp.Twice {
			b2, v2 := ser(inst2, "the deserialized instance")
			if b2 == nil {
				return
			}
			if d := diffState(v, v2, ""); d != "" {
				viol("serializing the deserialized instance gives another state: %s\n%s\n%s", d, b, b2)
				return
			}
		}
		if sp.How == 0 {
			if sp.Twice {
				if _, v2 := ser(inst, "the instance"); v2 == nil || diffState(v, v2, "") != "" {
					viol("serializing the instance once more gives another state: %s", diffState(v, v2, ""))
					return
				}
			}
			continue
		}
		if sp.Reload {
			if err := l.reload(); err != nil {
				panic("harness: " + err.Error())
			}
		}
		if before {
			o.Feat["restart-in-the-middle"]++
		}
		if sp.NewID {
			o.Feat["restart-with-new-id"]++
			m.newIDs()
		}
		step := 0
		if sp.Step > 0 {
			step = steps + 1
			o.Feat["restart-from-step"]++
		}
		if i == len(sc.Saves)-1 && sc.Finish {
			pid := id
			if sp.NewID {
				pid = ""
			}
			m.note("-- restarted by action (id %q, step %d)", pid, step)
			opt := &instance.RunOptions{Op: instance.OpRestart, InitialState: inst2, PreservedInstanceId: pid, InitStepId: step, FlowURI: l.uris[0]}
			if err := l.drive(r, map[string]interface{}{"_run_options": opt}, ro); err == errTimeout {
				o.Hang = true
			}
			o.Feat["finished-by-action"]++
			return
		}
		if sp.NewID {
			id = fmt.Sprintf("I%s_%d", m.pid, i)
		}
		m.note("-- restarted (id %q, step %d)", id, step)
		if err := inst2.Restart(logger, id, step-1); err != nil {
			viol("the saved instance cannot be restarted: %v", err)
			return
		}
		inst2.SetInstanceRecorder(rec)
		inst2.SetResultHandler(r)
		if sp.Twice && !sp.NewID {
			b2, v2 := ser(inst2, "the restarted instance")
			if b2 == nil {
				return
			}
			if d := diffState(v, v2, ""); d != "" {
				viol("serializing the restarted instance gives another state: %s\n%s\n%s", d, b, b2)
				return
			}
		}
		inst = inst2
	}
	if broken() {
		return
	}
	// the end of the run, as the action reports it
	for n := 0; active() && n < 20000; n++ {
		if !inst.DoStep() {
			break
		}
	}
	switch inst.Status() {
	case model.FlowStatusCompleted:
		d, err := inst.GetReturnData()
		r.HandleResult(d, err)
	case model.FlowStatusFailed:
		r.HandleResult(nil, inst.GetError())
	}
	r.Done()
	r.mu.Lock()
	rep := append([]map[string]interface{}{}, r.replies...)
	r.mu.Unlock()
	m.Finish(rep)
}

func init() {
	register(&Prop{ID: "C09", Quick: 90000, Thorough: 90000 * 14,
		Variants: []Variant{seqVar, {Name: "context-logging", Env: []string{"FLOGO_LOG_CTX=true"}}, seqVar, concVar},
		Rule:     "Flows with subflows, loops, retries, error handlers, replies and returns are run step by step by hand, serialized after random numbers of steps (1-3 times), deserialized, and restarted (also with another id, from the next step, with the flows loaded anew, in sequential and concurrent mode); non-trivial: restarted after at least one activity had been executed and before the end",
		Assume:   []string{"data values are JSON values; the saving is not concurrent to a step"},
		Run:      runC09})
}
