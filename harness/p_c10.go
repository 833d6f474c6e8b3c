package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	flowstate "github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/state/change"
	flowsupport "github.com/project-flogo/flow/support"
)

// C10: state recording. What is recorded is replayed and compared with the
// snapshots, with the serialized instance and with the model of the run.

// the numbers of the recorded documents
const (
	stReady       = 20
	stWaiting     = 30
	flowCompleted = 500
	flowFailed    = 700
	chgAdd        = 0
	chgDelete     = 2
)

// flowSt is the recorded state of one flow
type flowSt struct {
	URI    string
	Task   string // subflows: the task that called it
	Status int
	Attrs  map[string]interface{}
	Tasks  map[string]int
	Links  map[int]int
}

type queueItem struct {
	ID, Sub int
	Task    string
}

// runSt is the recorded state of a run
type runSt struct {
	ID    string
	Flows map[int]*flowSt
	Queue []queueItem
}

func newFlowSt() *flowSt {
	return &flowSt{Attrs: map[string]interface{}{}, Tasks: map[string]int{}, Links: map[int]int{}}
}

func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("unserializable: %v", err)
	}
	var r interface{}
	_ = json.Unmarshal(b, &r)
	return r
}

// apply applies the changes of a step
func (r *runSt) apply(st *flowstate.Step) error {
	var ids []int
	for id := range st.FlowChanges {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fc := st.FlowChanges[id]
		if fc.SubflowId != id {
			return fmt.Errorf("the changes of flow %d are said to belong to subflow %d", id, fc.SubflowId)
		}
		f := r.Flows[id]
		if f == nil {
			f = newFlowSt()
			r.Flows[id] = f
			if !fc.NewFlow && fc.Status < flowCompleted {
				return fmt.Errorf("changes of subflow %d, which was not created or has ended", id)
			}
		}
		if fc.NewFlow {
			f.URI = fc.FlowURI
			if id > 0 {
				f.Task = fc.TaskId
			}
		}
		if fc.Status != 0 {
			f.Status = fc.Status
		}
		for k, v := range fc.Attrs {
			f.Attrs[k] = norm(v)
		}
		for t, c := range fc.Tasks {
			if c.ChgType == chgDelete {
				delete(f.Tasks, t)
			} else {
				if _, ok := f.Tasks[t]; ok && c.ChgType == chgAdd {
					return fmt.Errorf("task %s of flow %d is added, but it is there already", t, id)
				}
				if !isOneOf(fmt.Sprint(c.Status), []string{"0", "10", "20", "30", "40", "50", "100"}) {
					return fmt.Errorf("task %s of flow %d is recorded with the unknown status %d", t, id, c.Status)
				}
				f.Tasks[t] = c.Status
			}
		}
		for l, c := range fc.Links {
			if c.ChgType == chgDelete {
				delete(f.Links, l)
			} else {
				if _, ok := f.Links[l]; ok && c.ChgType == chgAdd {
					return fmt.Errorf("link %d of flow %d is added, but it is there already", l, id)
				}
				if c.Status < 0 || c.Status > 3 {
					return fmt.Errorf("link %d of flow %d is recorded with the unknown status %d", l, id, c.Status)
				}
				f.Links[l] = c.Status
			}
		}
		if id > 0 && f.Status >= flowCompleted {
			delete(r.Flows, id)
		}
	}
	var qs []int
	for id := range st.QueueChanges {
		qs = append(qs, id)
	}
	sort.Ints(qs)
	for _, id := range qs {
		qc := st.QueueChanges[id]
		at := -1
		for i, q := range r.Queue {
			if q.ID == id {
				at = i
			}
		}
		if qc.ChgType == chgDelete {
			if at >= 0 {
				r.Queue = append(append([]queueItem{}, r.Queue[:at]...), r.Queue[at+1:]...)
			}
			continue
		}
		it := queueItem{ID: id, Sub: qc.SubflowId, Task: qc.TaskId}
		if at >= 0 {
			r.Queue[at] = it
		} else {
			r.Queue = append([]queueItem{it}, r.Queue...)
		}
	}
	return nil
}

func baseSt(b *flowstate.SnapshotBase, task string) (*flowSt, error) {
	f := newFlowSt()
	if b == nil {
		return f, errors.New("a flow without state")
	}
	f.URI, f.Task, f.Status = b.FlowURI, task, b.Status
	for k, v := range b.Attrs {
		f.Attrs[k] = norm(v)
	}
	for _, t := range b.Tasks {
		if _, dup := f.Tasks[t.Id]; dup {
			return f, fmt.Errorf("task %s twice", t.Id)
		}
		f.Tasks[t.Id] = t.Status
	}
	for _, l := range b.Links {
		if _, dup := f.Links[l.Id]; dup {
			return f, fmt.Errorf("link %d twice", l.Id)
		}
		f.Links[l.Id] = l.Status
	}
	return f, nil
}

func snapSt(s *flowstate.Snapshot) (*runSt, error) {
	r := &runSt{ID: s.Id, Flows: map[int]*flowSt{}}
	f, err := baseSt(s.SnapshotBase, "")
	r.Flows[0] = f
	if err != nil {
		return r, err
	}
	for _, sf := range s.Subflows {
		if r.Flows[sf.Id] != nil {
			return r, fmt.Errorf("subflow %d twice", sf.Id)
		}
		f, err := baseSt(sf.SnapshotBase, sf.TaskId)
		r.Flows[sf.Id] = f
		if err != nil {
			return r, err
		}
	}
	for _, w := range s.WorkQueue {
		r.Queue = append(r.Queue, queueItem{w.ID, w.SubflowId, w.TaskId})
	}
	return r, nil
}

// serSt reads the state of a serialized instance
func serSt(b []byte) *runSt {
	type task struct {
		Id     string
		Status int
	}
	type link struct {
		LinkId int `json:"linkId"`
		Status int
	}
	type flow struct {
		SubFlowId int
		HostTask  string
		FlowUri   string
		Status    int
		Attrs     map[string]interface{}
		Tasks     []task
		Links     []link
	}
	var v struct {
		flow
		Id        string
		WorkQueue []struct {
			ID        int
			TaskID    string
			SubFlowId int
		}
		SubFlows []flow
	}
	if err := json.Unmarshal(b, &v); err != nil {
		panic("harness: " + err.Error())
	}
	conv := func(x flow) *flowSt {
		f := newFlowSt()
		f.URI, f.Task, f.Status = x.FlowUri, x.HostTask, x.Status
		for k, a := range x.Attrs {
			f.Attrs[k] = a
		}
		for _, t := range x.Tasks {
			f.Tasks[t.Id] = t.Status
		}
		for _, l := range x.Links {
			f.Links[l.LinkId] = l.Status
		}
		return f
	}
	r := &runSt{ID: v.Id, Flows: map[int]*flowSt{0: conv(v.flow)}}
	for _, s := range v.SubFlows {
		r.Flows[s.SubFlowId] = conv(s)
	}
	for _, w := range v.WorkQueue {
		r.Queue = append(r.Queue, queueItem{w.ID, w.SubFlowId, w.TaskID})
	}
	return r
}

func (r *runSt) String() string { b, _ := json.Marshal(r); return string(b) }

// diffSt tells how b differs from a; abandoned work may be missing from the queue of b
func diffSt(a, b *runSt, stale bool) string {
	if a.ID != b.ID {
		return fmt.Sprintf("the id is %q instead of %q", b.ID, a.ID)
	}
	for id, f := range a.Flows {
		g := b.Flows[id]
		if g == nil {
			return fmt.Sprintf("flow %d is missing", id)
		}
		if f.URI != g.URI || f.Status != g.Status || f.Task != g.Task {
			return fmt.Sprintf("flow %d is %q, called by task %q, status %d instead of %q, task %q, status %d", id, g.URI, g.Task, g.Status, f.URI, f.Task, f.Status)
		}
		if d := diffState(interface{}(f.Attrs), interface{}(g.Attrs), fmt.Sprintf("flow %d: attribute ", id)); d != "" {
			return d
		}
		if x, y := fmt.Sprint(f.Tasks), fmt.Sprint(g.Tasks); x != y {
			return fmt.Sprintf("the tasks of flow %d are %s instead of %s", id, y, x)
		}
		if x, y := fmt.Sprint(f.Links), fmt.Sprint(g.Links); x != y {
			return fmt.Sprintf("the links of flow %d are %s instead of %s", id, y, x)
		}
	}
	for id := range b.Flows {
		if a.Flows[id] == nil {
			return fmt.Sprintf("flow %d is listed although it does not exist (any more)", id)
		}
	}
	qa := a.Queue
	if stale {
		qa = nil
		for _, q := range a.Queue {
			if f := a.Flows[q.Sub]; f == nil || f.Status >= flowCompleted {
				continue
			} else if st, ok := f.Tasks[q.Task]; !ok || st != stReady && st != stWaiting {
				continue
			}
			qa = append(qa, q)
		}
		if a.Flows[0].Status >= flowCompleted {
			qa = nil
		}
	}
	if x, y := fmt.Sprint(qa), fmt.Sprint(b.Queue); x != y {
		return fmt.Sprintf("the work queue is %s instead of %s", y, x)
	}
	return ""
}

// rec is one record
type rec struct {
	kind  string
	step  *flowstate.Step
	snap  *flowstate.Snapshot
	state *flowstate.FlowState
	json  string
	ser   []byte
	facts int
	en    []string // tasks that are to begin, according to the model
}

// recSvc is the recorder of the engine
type recSvc struct {
	mu   sync.Mutex
	recs []*rec
	m    *Model
	inst *instance.IndependentInstance // runs that are driven by hand
	err  error
}

var recorder = &recSvc{}

func (s *recSvc) Name() string { return "recorder" }
func (s *recSvc) Start() error { return nil }
func (s *recSvc) Stop() error  { return nil }

func (s *recSvc) reset(m *Model) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.recs, s.m, s.inst, s.err = nil, m, nil, nil
}

func (s *recSvc) add(r *rec, v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		b = []byte("unserializable: " + err.Error())
	}
	r.json = string(b)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.inst != nil {
		if r.ser, err = json.Marshal(s.inst); err != nil {
			panic("harness: " + err.Error())
		}
	}
	if m := s.m; m != nil {
		_, names := m.enabledCount()
		m.mu.Lock()
		r.facts = len(m.facts)
		m.mu.Unlock()
		r.en = names
	}
	s.recs = append(s.recs, r)
	return s.err
}
func (s *recSvc) RecordStart(st *flowstate.FlowState) error {
	return s.add(&rec{kind: "start", state: st}, st)
}
func (s *recSvc) RecordDone(st *flowstate.FlowState) error {
	return s.add(&rec{kind: "done", state: st}, st)
}
func (s *recSvc) RecordSnapshot(sn *flowstate.Snapshot) error {
	return s.add(&rec{kind: "snapshot", snap: sn}, sn)
}
func (s *recSvc) RecordStep(st *flowstate.Step) error {
	return s.add(&rec{kind: "step", step: st}, st)
}

type recCase struct {
	Flows  *Case `json:"case"`
	Manual bool  `json:"byHand"`
	RecErr bool  `json:"recorderFails"`
	Rerun  bool  `json:"rerun"`
	// by hand: saved after so many steps and restarted by the action, from the next step or not
	Restart  int  `json:"restartAfter"`
	FromStep bool `json:"fromStep"`
	NewID    bool `json:"newId"`
}

func recMode() (flowstate.RecordingMode, string) {
	switch v := os.Getenv("VERIF_REC"); v {
	case "legacy-full":
		return flowstate.RecordingModeFull, v
	case "legacy-step":
		return flowstate.RecordingModeStep, v
	case "legacy-snapshot":
		return flowstate.RecordingModeSnapshot, v
	case "norecorder":
		return flowstate.RecordingModeFull, v
	case "none", "legacy-off":
		return flowstate.RecordingModeOff, v
	default:
		return flowstate.RecordingMode(v), v
	}
}

// runBadMode: the engine does not start with a recording mode it does not know
func runBadMode(cx *Cx) *Outcome {
	s := cx.S
	var v interface{}
	switch s.N(6) {
	case 0:
		v = nil
	case 1:
		v = genScalar(s)
	case 2:
		v = map[string]interface{}{"mode": "full"}
	case 3:
		v = s.Str("", "fulll", " full", "none", "on", "true", "steps", "off,", "snap", "full ")
	default:
		m := s.Str("full", "step", "snapshot", "debugger", "off")
		i := s.N(len(m))
		v = m[:i] + string(rune(' '+s.N(90))) + m[i+s.N(2):]
	}
	o := &Outcome{Case: map[string]interface{}{"mode": v}, Feat: map[string]int{"bad-modes": 1}}
	known := false
	if m, ok := v.(string); ok {
		known = isOneOf(strings.ToLower(m), []string{"full", "step", "snapshot", "debugger", "off"})
	}
	if known {
		return o
	}
	o.Non = true
	for _, ref := range []string{flowRef, onDemandRef} {
		ic := &initCtx{rm: resource.NewManager(nil), sm: service.NewServiceManager(), settings: map[string]interface{}{"stateRecordingMode": v}}
		if err := action.GetFactory(ref).Initialize(ic); err == nil && o.Viol == "" {
			o.Viol = fmt.Sprintf("%s is initialised with the unsupported recording mode %s", ref, normJSON(v))
		}
	}
	return o
}

func initC10(v *Variant) {
	mode, cfg := recMode()
	if cfg == "bad-mode" {
		return
	}
	set := map[string]interface{}{}
	switch cfg {
	case "none":
		set = nil
	case "legacy-full":
		set["stepRecordingMode"], set["snapshotRecordingMode"] = "full", "Full"
	case "legacy-step":
		set["stepRecordingMode"] = "full"
	case "legacy-snapshot":
		set["snapshotRecordingMode"] = "full"
		set["stepRecordingMode"] = "off"
	case "legacy-off":
		set["snapshotRecordingMode"] = ""
	case "full":
		set["stateRecordingMode"] = "Full"
	default:
		set["stateRecordingMode"] = string(mode)
	}
	if cfg == "norecorder" {
		set["stateRecordingMode"] = "full"
		initEngine(nil, set)
		return
	}
	initEngine([]service.Service{recorder}, set)
}

func genC10(s *Src, conc bool) *recCase {
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 4
	p.Sub, p.Loop, p.Retry = 28, 22, 12
	p.EH, p.ErrLink = 45, 15
	p.Fail, p.Panic = 18, 20
	p.Return, p.Reply = 6, 6
	p.Risky, p.MapFail, p.CondFail, p.SetFail = 12, 15, 4, 4
	p.SetOut, p.SetOK, p.Ctx = 30, 12, 8
	p.Maps = 3
	p.EmptyFlow = 3
	if conc {
		p.Return, p.Reply, p.Panic, p.SetFail = 4, 0, 0, 0
		p.SetOut, p.SetOK, p.Ctx, p.EmptyFlow = 0, 0, 0, 0
		p.Terminals = s.N(2)
	}
	c := &recCase{Flows: genCase(s, p)}
	if !conc && os.Getenv("VERIF_REC") != "norecorder" {
		c.Manual = s.P(50)
	}
	c.RecErr = s.P(20)
	c.Rerun = s.P(20)
	if c.Manual && s.P(40) {
		m, _ := simulate(c.Flows, 300)
		c.Restart = 1 + s.N(m.steps+1)
		c.FromStep = s.P(60)
		c.NewID = s.P(30)
	}
	return c
}

func runC10(cx *Cx) *Outcome {
	if cx.Var.Name == "bad-mode" {
		return runBadMode(cx)
	}
	conc := strings.HasPrefix(cx.Var.Name, "concurrent")
	c := genC10(cx.S, conc)
	o := &Outcome{Case: c, Feat: map[string]int{}}
	l, err := load(c.Flows)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	ro := &RunOpts{Conc: conc}
	r := newRun(c.Flows, ro)
	defer endRun(r.M.pid)
	m := r.M
	recorder.reset(m)
	if c.RecErr {
		recorder.err = errors.New("cannot record")
	}
	defer recorder.reset(nil)
	viol := func(f string, a ...interface{}) {
		m.mu.Lock()
		m.fail(f, a...)
		m.mu.Unlock()
	}
	mode, _ := recMode()
	id := ""
	if c.Manual {
		l.recManual(c, r, ro, mode, viol, o)
	} else {
		id = "A" + m.pid
		if c.NewID {
			id = ""
		}
		ro.RO = &instance.RunOptions{Rerun: c.Rerun, PreservedInstanceId: id, OriginalInstanceId: "orig"}
		m.givenID = true
		if l.execRun(r, ro) == errTimeout {
			o.Hang = true
		}
		if os.Getenv("VERIF_REC") == "norecorder" {
			if len(recorder.recs) > 0 {
				viol("harness: recorded without recorder")
			}
		} else if !conc {
			l.checkRecords(c, r, mode, recorder.recs, id, nil, 0, viol, o)
		} else {
			n := map[string]int{}
			for _, x := range recorder.recs {
				n[x.kind]++
			}
			if n["start"] != 1 || n["done"] != 1 {
				viol("%d starts and %d ends of the run were recorded", n["start"], n["done"])
			}
			for _, x := range recorder.recs {
				if x.kind == "start" || x.kind == "done" {
					l.checkFlowState(c, r, x, id, viol)
				}
			}
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	o.Viol = m.viol
	o.Hist = append([]string{}, m.hist...)
	o.Feat = merge(o.Feat, m.feat)
	o.Feat["executions"] += m.execs
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !conc {
		o.Viol = "after the run had ended: " + orph[0]
	}
	if len(o.Hist) > 0 && o.Viol != "" {
		for _, x := range recorder.recs {
			o.Hist = append(o.Hist, x.kind+" "+x.json)
		}
	}
	if mode == flowstate.RecordingModeOff || conc || os.Getenv("VERIF_REC") == "norecorder" {
		o.Non = m.execs > 1
	} else {
		o.Non = o.Feat["records-compared"] >= 3
	}
	return o
}

func (l *Loaded) recManual(c *recCase, r *Run, ro *RunOpts, mode flowstate.RecordingMode, viol func(f string, a ...interface{}), o *Outcome) {
	m := r.M
	m.givenID = true
	def, _, err := flowsupport.GetDefinition(l.uris[0])
	if err != nil || def == nil {
		panic("harness: no definition")
	}
	logger := log.ChildLogger(log.RootLogger(), "recorded")
	id := "I" + m.pid
	inst, err := instance.NewIndependentInstance(id, l.uris[0], def, instance.NewStateInstanceRecorder(recorder, mode, c.Rerun), logger)
	if err != nil {
		panic("harness: " + err.Error())
	}
	recorder.inst = inst
	in := copyMap(l.cs.In)
	if in == nil {
		in = map[string]interface{}{}
	}
	in["pid"] = m.pid
	inst.SetResultHandler(r)
	inst.UpdateStartTime()
	m.Start()
	inst.Start(in)
	t0 := time.Now().UTC()
	_ = inst.RecordState(t0)
	calls, steps := 1, 0
	for n := 0; inst.Status() == model.FlowStatusActive && n < 20000; n++ {
		if c.Restart > 0 && steps == c.Restart {
			break
		}
		steps++
		more := inst.DoStep()
		_ = inst.RecordState(time.Now().UTC())
		calls++
		if !more {
			break
		}
	}
	l.checkRecords(c, r, mode, recorder.recs, id, nil, calls, viol, o)
	if inst.Status() == model.FlowStatusActive && c.Restart > 0 && steps == c.Restart {
		b, err := json.Marshal(inst)
		inst2 := &instance.IndependentInstance{}
		if err != nil || json.Unmarshal(b, inst2) != nil {
			viol("the instance cannot be saved and loaded")
			return
		}
		o.Feat["restart"]++
		step := 0
		if c.FromStep {
			step = steps + 1
		}
		if c.NewID {
			m.newIDs()
			id = "N" + m.pid
		}
		recorder.mu.Lock()
		recorder.recs, recorder.inst = nil, nil
		recorder.mu.Unlock()
		m.mu.Lock()
		bad := m.viol != ""
		m.mu.Unlock()
		if bad {
			return
		}
		m.note("-- restarted (id %q, step %d)", id, step)
		nf := len(m.facts)
		ro.RO = &instance.RunOptions{Op: instance.OpRestart, InitialState: inst2, PreservedInstanceId: id, InitStepId: step, FlowURI: l.uris[0], Rerun: c.Rerun, OriginalInstanceId: "orig"}
		if err := l.drive(r, map[string]interface{}{"_run_options": ro.RO}, ro); err == errTimeout {
			o.Hang = true
			return
		}
		end := serSt(b)
		end.ID = id
		fixIDs := func(f *flowSt) {
			for _, k := range []string{"_fctx.FlowId", "_fctx.ParentFlowId"} {
				v, _ := f.Attrs[k].(string)
				if old := "I" + m.pid; len(v) >= len(old) && v[:len(old)] == old {
					f.Attrs[k] = id + v[len(old):]
				}
			}
		}
		for _, f := range end.Flows {
			fixIDs(f)
		}
		l.checkRecords(c, r, mode, recorder.recs, id, &seed{end, step, nf}, 0, viol, o)
		return
	}
	switch inst.Status() {
	case model.FlowStatusCompleted:
		d, err := inst.GetReturnData()
		r.HandleResult(d, err)
	case model.FlowStatusFailed:
		r.HandleResult(nil, inst.GetError())
	}
	r.Done()
	r.mu.Lock()
	rep := append([]map[string]interface{}{}, r.replies...)
	r.mu.Unlock()
	m.Finish(rep)
}

// seed is the state from which a run was restarted
type seed struct {
	st    *runSt
	step  int
	facts int
}

func (l *Loaded) checkFlowState(c *recCase, r *Run, x *rec, id string, viol func(f string, a ...interface{})) {
	m := r.M
	m.mu.Lock()
	st, res := m.root.status, append([]Res{}, m.res...)
	m.mu.Unlock()
	fs := x.state
	if fs.FlowName != l.cs.Flows[0].Name || id != "" && fs.FlowInstanceId != id || fs.FlowInstanceId == "" {
		viol("the %s record names flow %q, instance %q, want %q, %q", x.kind, fs.FlowName, fs.FlowInstanceId, l.cs.Flows[0].Name, id)
		return
	}
	if a, b, c, d := appVar("FLOGO_APP_NAME"), appVar("FLOGO_APP_VERSION"), appVar("FLOGO_APP_USERNAME"), appVar("FLOGO_HOST_NAME"); fs.AppName != a || fs.AppVersion != b || fs.UserId != c || fs.HostId != d {
		viol("the %s record names application %q %q, user %q, host %q, want %q %q, %q, %q", x.kind, fs.AppName, fs.AppVersion, fs.UserId, fs.HostId, a, b, c, d)
		return
	}
	in := map[string]interface{}{"pid": m.pid}
	for k, v := range l.cs.In {
		in[k] = v
	}
	if c.Restart == 0 {
		if d := diffState(norm(in), norm(fs.FlowInputs), "input "); d != "" {
			viol("the %s record has other inputs than the run: %s", x.kind, d)
			return
		}
	}
	if x.kind == "start" {
		if fs.OriginalInstanceId != "orig" {
			viol("the start record names the original instance %q", fs.OriginalInstanceId)
		}
		return
	}
	want := "Completed"
	if st == csFailed {
		want = "Failed"
	}
	if fs.FlowStats != want {
		viol("the final status is recorded as %q, the run has %s", fs.FlowStats, want)
		return
	}
	if fs.EndTime.Before(fs.StartTime) || fs.StartTime.IsZero() {
		viol("the recorded run ended %v, started %v", fs.EndTime, fs.StartTime)
		return
	}
	if st == csCompleted && len(res) > 0 {
		if d := res[len(res)-1].Data; !dataMatch(d, fs.FlowOutputs) {
			viol("the outputs are recorded as %s, the run returned %s", show2(fs.FlowOutputs), show2(d))
		}
	}
}

func (l *Loaded) checkRecords(c *recCase, r *Run, mode flowstate.RecordingMode, recs []*rec, id string, sd *seed, calls int, viol func(f string, a ...interface{}), o *Outcome) *runSt {
	m := r.M
	m.mu.Lock()
	bad := m.viol != ""
	facts := append([]Fact{}, m.facts...)
	failedSubs := 0
	for _, x := range m.all {
		if x.parent != nil && x.status == csFailed {
			failedSubs++
		}
	}
	m.mu.Unlock()
	if bad {
		return nil
	}
	manual := calls > 0
	steps, snaps := flowstate.RecordSteps(mode), flowstate.RecordSnapshot(mode)
	var ss, ns []*rec
	nStart, nDone := 0, 0
	for i, x := range recs {
		switch x.kind {
		case "start":
			nStart++
			if i != 0 {
				viol("the start of the run was recorded after something else")
				return nil
			}
			l.checkFlowState(c, r, x, id, viol)
		case "done":
			nDone++
			if i != len(recs)-1 {
				viol("something was recorded after the end of the run")
				return nil
			}
			l.checkFlowState(c, r, x, id, viol)
		case "step":
			ss = append(ss, x)
		case "snapshot":
			ns = append(ns, x)
		}
		// records belong to the recorder: they must not change any more
		var v interface{} = x.step
		switch {
		case x.snap != nil:
			v = x.snap
		case x.state != nil:
			v = x.state
		}
		if b, _ := json.Marshal(v); string(b) != x.json {
			viol("a %s record changes after it was recorded: %s, then %s", x.kind, x.json, b)
			return nil
		}
	}
	if want := 1; manual {
		if nStart+nDone > 0 {
			viol("harness: start or done recorded")
			return nil
		}
	} else if nStart != want || nDone != want {
		viol("%d starts and %d ends of the run were recorded", nStart, nDone)
		return nil
	}
	if !steps && len(ss) > 0 || !snaps && len(ns) > 0 {
		viol("%d steps and %d snapshots are recorded in mode %q", len(ss), len(ns), mode)
		return nil
	}
	if manual && (steps && (len(ss) < calls || len(ss) > calls+failedSubs) || snaps && (len(ns) < calls || len(ns) > calls+failedSubs)) {
		viol("%d steps and %d snapshots were recorded for %d steps in mode %q", len(ss), len(ns), calls, mode)
		return nil
	}
	if steps && snaps && len(ss) != len(ns) {
		viol("%d steps and %d snapshots were recorded", len(ss), len(ns))
		return nil
	}
	// the states
	n := len(ss)
	if len(ns) > n {
		n = len(ns)
	}
	acc := &runSt{ID: id, Flows: map[int]*flowSt{}}
	first := 0
	if sd != nil {
		acc = sd.st
		first = sd.step
	}
	if id == "" && len(recs) > 0 && recs[0].state != nil {
		id = recs[0].state.FlowInstanceId
		acc.ID = id
	}
	last := 0
	seeded := sd != nil
	if seeded {
		last = sd.facts
	}
	var list []*flowstate.Step
	ends := map[int]*change.Flow{}
	for k := 0; k < n; k++ {
		var x *rec
		what := ""
		var sn *runSt
		if snaps {
			x = ns[k]
			var err error
			sn, err = snapSt(x.snap)
			if err != nil {
				viol("snapshot %d: %v: %s", k, err, x.json)
				return nil
			}
		}
		if steps {
			x = ss[k]
			st := x.step
			if st.Id != first+k {
				viol("step %d of the run is recorded with number %d (first %d)", k, st.Id, first)
				return nil
			}
			if st.FlowId != id {
				viol("step %d is recorded for instance %q, want %q", k, st.FlowId, id)
				return nil
			}
			if st.Rerun != c.Rerun {
				viol("step %d is recorded with rerun %v", k, st.Rerun)
				return nil
			}
			if st.StartTime.IsZero() || st.EndTime.Before(st.StartTime) {
				viol("step %d is recorded to take from %v to %v", k, st.StartTime, st.EndTime)
				return nil
			}
			del := 0
			for _, q := range st.QueueChanges {
				if q.ChgType == chgDelete {
					del++
				}
			}
			if del > 1 || del > 0 && k == 0 && !seeded {
				viol("step %d takes %d items from the work queue", k, del)
				return nil
			}
			if err := acc.apply(st); err != nil {
				viol("step %d: %v: %s", k, err, x.json)
				return nil
			}
			list = append(list, st)
			what = "the steps"
			if sn != nil {
				if d := diffSt(sn, acc, false); d != "" {
					viol("after step %d the recorded steps do not give the recorded snapshot: %s\nsnapshot %s\nstep %s", k, d, ns[k].json, x.json)
					return nil
				}
			}
			if !seeded {
				before, _ := json.Marshal(list)
				rb := flowstate.StepsToSnapshot(id, list)
				rs, err := snapSt(rb)
				if err != nil {
					viol("the snapshot rebuilt from %d steps: %v", k+1, err)
					return nil
				}
				if d := diffSt(acc, rs, false); d != "" {
					viol("the snapshot rebuilt from the first %d steps is wrong: %s\nrebuilt %s", k+1, d, show(norm(rb)))
					return nil
				}
				if after, _ := json.Marshal(list); string(after) != string(before) {
					viol("rebuilding a snapshot changes the recorded steps: %s, then %s", before, after)
					return nil
				}
			}
			if mode == flowstate.RecordingModeDebugger {
				if !l.checkDebug(r, st, facts[last:x.facts], viol) {
					return nil
				}
				for id, fc := range st.FlowChanges {
					if fc.Status == flowCompleted {
						ends[id] = fc
					}
				}
			}
		} else {
			acc = sn
			what = "the snapshot"
		}
		last = x.facts
		if acc.Flows[0] == nil {
			viol("the main flow is not recorded")
			return nil
		}
		if x.ser != nil {
			if d := diffSt(acc, serSt(x.ser), true); d != "" {
				viol("after step %d %s do not give the state of the instance: in the instance %s\nrecorded %s\ninstance %s", k, what, d, acc, x.ser)
				return nil
			}
		}
		if d := m.diffModel(acc, x.en); d != "" {
			viol("after step %d: %s, recorded %s", k, d, acc)
			return nil
		}
		o.Feat["records-compared"]++
	}
	if mode == flowstate.RecordingModeDebugger && !seeded && !manual {
		if bad := m.diffReturns(r, ends, o); bad != "" {
			viol("%s", bad)
			return nil
		}
	}
	if n > 0 && !manual {
		m.mu.Lock()
		want := flowCompleted
		if m.root.status == csFailed {
			want = flowFailed
		}
		m.mu.Unlock()
		if acc.Flows[0].Status != want {
			viol("the last recorded status of the flow is %d, want %d", acc.Flows[0].Status, want)
		}
		if len(acc.Flows) > 1 {
			viol("subflows are recorded as active after the run has ended: %s", acc)
		}
	}
	if n == 0 {
		return nil
	}
	return acc
}

// diffReturns compares the recorded ends of flows with what the flows returned
func (m *Model) diffReturns(r *Run, ends map[int]*change.Flow, o *Outcome) string {
	r.mu.Lock()
	replied := len(r.replies) > 0
	r.mu.Unlock()
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.all {
		if c.status != csCompleted || !c.id.Bound {
			continue
		}
		n := c.number()
		fc := ends[n]
		if c.parent == nil && c.ret == nil && replied {
			// what was replied is what was returned
			continue
		}
		if fc == nil {
			return fmt.Sprintf("the end of flow %d (%s) is not recorded", n, c.pid)
		}
		if !dataMatch(c.outs, fc.ReturnData) {
			return fmt.Sprintf("flow %d (%s) is recorded to return %s, want %s", n, c.pid, show2(fc.ReturnData), show2(c.outs))
		}
		o.Feat["recorded-returns"]++
	}
	return ""
}

// number gets the number of the flow run within the instance
func (c *Cont) number() int {
	if c.parent == nil {
		return 0
	}
	n := 0
	v := c.id.Val
	for i := len(v) - 1; i >= 0; i-- {
		if v[i] == '-' {
			fmt.Sscanf(v[i+1:], "%d", &n)
			break
		}
	}
	return n
}

// diffModel compares the recorded pending work with the tasks that are to begin according to the model
func (m *Model) diffModel(st *runSt, en []string) string {
	if st.Flows[0].Status >= flowCompleted {
		return ""
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	num := map[string]int{} // flow run -> number
	for _, c := range m.all {
		if c.parent == nil {
			num[c.pid] = 0
			continue
		}
		if !c.id.Bound {
			num[c.pid] = -1
			continue
		}
		num[c.pid] = c.number()
	}
	wants := map[string]bool{}
	for _, e := range en {
		wants[e] = true
	}
	var pend []string
	for _, q := range st.Queue {
		f := st.Flows[q.Sub]
		if f == nil {
			continue
		}
		s, ok := f.Tasks[q.Task]
		if !ok || s == 0 {
			continue
		}
		if s == stWaiting {
			// the calling task has not been continued yet
			return ""
		}
		for _, c := range m.all {
			if n := num[c.pid]; n != q.Sub && n >= 0 {
				continue
			}
			for _, g := range []*Graph{c.flow.G, c.flow.EH} {
				if g == nil {
					continue
				}
				for _, t := range g.Tasks {
					if t.ID == q.Task && (t.Loop != nil && t.Loop.Kind == "iter" || t.Sub > 0) && !wants[c.pid+"/"+t.ID] {
						// the model is ahead, as there is nothing to see of the end of a loop,
						// or the subflow has failed as soon as it was started
						return ""
					}
				}
			}
		}
		pend = append(pend, fmt.Sprintf("%d/%s", q.Sub, q.Task))
	}
	var want []string
	for _, e := range en {
		for i := len(e) - 1; i >= 0; i-- {
			if e[i] == '/' {
				n := num[e[:i]]
				if n < 0 {
					// a flow run whose id is not known yet
					return ""
				}
				want = append(want, fmt.Sprintf("%d/%s", n, e[i+1:]))
				break
			}
		}
	}
	sort.Strings(pend)
	sort.Strings(want)
	if fmt.Sprint(pend) != fmt.Sprint(want) {
		return fmt.Sprintf("the pending tasks are recorded as %v, to be executed are %v", pend, want)
	}
	return ""
}

// checkDebug checks what is recorded for debuggers
func (l *Loaded) checkDebug(r *Run, st *flowstate.Step, facts []Fact, viol func(f string, a ...interface{})) bool {
	type key struct {
		flow int
		task string
	}
	in := map[key]map[string]interface{}{}
	for _, f := range facts {
		if f.Kind != "begin" || f.TI.t.Sub > 0 || !f.C.id.Bound {
			continue
		}
		in[key{f.C.number(), f.Task}] = f.In
	}
	for k, v := range in {
		var got interface{}
		if fc := st.FlowChanges[k.flow]; fc != nil && fc.Tasks[k.task] != nil {
			got = norm(fc.Tasks[k.task].Input)
		}
		if d := diffState(norm(v), got, "input "); d != "" {
			viol("step %d does not record the inputs of task %s of flow %d: %s", st.Id, k.task, k.flow, d)
			return false
		}
	}
	for id, fc := range st.FlowChanges {
		var def *definition.Definition
		if fc.FlowURI != "" {
			def, _, _ = flowsupport.GetDefinition(fc.FlowURI)
		}
		if def == nil {
			continue
		}
		for n, lc := range fc.Links {
			lk := def.GetLink(n)
			if lk == nil && def.GetErrorHandler() != nil {
				lk = def.GetErrorHandler().GetLink(n)
			}
			if lk == nil {
				viol("step %d records a change of link %d that flow %d does not have", st.Id, n, id)
				return false
			}
			if lc.ChgType != chgDelete && (lc.From != lk.FromTask().ID() || lc.To != lk.ToTask().ID()) {
				viol("step %d records link %d of flow %d as from %q to %q", st.Id, n, id, lc.From, lc.To)
				return false
			}
		}
	}
	return true
}

func recVar(name string, env ...string) Variant {
	v := Variant{Name: name, Env: append([]string{"VERIF_REC=" + name}, env...)}
	if len(env) > 0 {
		v.Name += "-endpoint"
	}
	return v
}

func init() {
	register(&Prop{ID: "C10", Quick: 60000, Thorough: 60000 * 14, Init: initC10,
		Variants: []Variant{recVar("full"), recVar("step"), recVar("debugger", "FLOGO_FLOW_SM_ENDPOINT=x"), recVar("snapshot"),
			recVar("full", append([]string{"FLOGO_FLOW_SM_ENDPOINT=x"}, namedApp...)...), recVar("off"), recVar("none"), recVar("debugger"),
			recVar("norecorder"), recVar("legacy-full"), recVar("legacy-step"), recVar("legacy-snapshot"), recVar("legacy-off"), recVar("bad-mode"),
			{Name: "concurrent", Env: []string{"VERIF_REC=full", "FLOGO_FLOW_CONCURRENT_TASK_EXECUTION=true"}},
			{Name: "concurrent-race", Env: []string{"VERIF_REC=full", "FLOGO_FLOW_CONCURRENT_TASK_EXECUTION=true"}, Race: true}},
		Rule:   "Flows with subflows, loops, retries, error handlers, replies and returns run with a recorder in every recording mode (also configured by the deprecated settings, with a recorder that fails, and restarted from a saved state), by the action or step by step by hand; non-trivial: at least three recorded states were compared (modes without: at least two executions)",
		Assume: []string{"sequential mode records every step; in concurrent mode only start, end and outcome are checked"},
		Run:    runC10})
}
