package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	flowstate "github.com/project-flogo/flow/state"
	flowsupport "github.com/project-flogo/flow/support"
	_ "github.com/project-flogo/flow/tester"
)

// C18: the tester service, used through HTTP. Each valid request is judged by
// a model of its run, and by what the recorder is told.

var (
	testerURL    string
	testerClient *http.Client
)

func initC18(v *Variant) {
	initEngine([]service.Service{ends}, map[string]interface{}{"stateRecordingMode": "off"})
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		f := service.GetFactory("github.com/project-flogo/flow/tester")
		if f == nil {
			panic("harness: the factory of the flow tester is not registered")
		}
		svc, err := f.NewService(&service.Config{Settings: map[string]interface{}{"port": port}})
		if err == nil {
			err = svc.Start()
		}
		if err == nil {
			testerURL = fmt.Sprintf("http://127.0.0.1:%d", port)
			break
		}
		if try > 50 {
			panic("harness: the flow tester cannot be started: " + err.Error())
		}
	}
	testerClient = &http.Client{Timeout: runLimit, Transport: &http.Transport{MaxIdleConnsPerHost: 16, DisableCompression: true}}
}

// free runs may do anything, their activities just succeed, for a while
var (
	freeRuns sync.Map
	freeSeq  int64
)

func newFree() string {
	pid := fmt.Sprintf("FREE%d", atomic.AddInt64(&freeSeq, 1))
	freeRuns.Store(pid, new(int32))
	return pid
}

func freeRun(pid string) func() error {
	if !strings.HasPrefix(pid, "FREE") {
		return nil
	}
	v, ok := freeRuns.Load(pid)
	if !ok {
		return nil
	}
	return func() error {
		if atomic.AddInt32(v.(*int32), 1) > 300 {
			return errors.New("enough")
		}
		return nil
	}
}

type answer struct {
	code int
	body string
	id   string
	ok   bool // the body is a JSON object with an id
	err  error
}

func (a *answer) String() string {
	if a.err != nil {
		return a.err.Error()
	}
	return fmt.Sprintf("%d %.200q", a.code, a.body)
}

func (a *answer) timeout() bool {
	e, ok := a.err.(net.Error)
	return ok && e.Timeout()
}

func send(method, path string, body []byte) *answer {
	a := &answer{}
	req, err := http.NewRequest(method, testerURL+path, bytes.NewReader(body))
	if err != nil {
		panic("harness: " + err.Error())
	}
	req.Header.Set("Content-Type", "application/json")
	rsp, err := testerClient.Do(req)
	if err != nil {
		a.err = err
		return a
	}
	defer rsp.Body.Close()
	b, err := io.ReadAll(rsp.Body)
	if err != nil {
		a.err = err
		return a
	}
	a.code, a.body = rsp.StatusCode, string(b)
	var v struct {
		ID *string `json:"id"`
	}
	if json.Unmarshal(b, &v) == nil && v.ID != nil {
		a.ok, a.id = true, *v.ID
	}
	return a
}

// tpatch replaces mappings of a task for one run
type tpatch struct {
	Task  string     `json:"task"`
	Maps  []*Mapping `json:"maps"`
	OMaps []*OutMap  `json:"omaps"`
}

func (p *tpatch) doc() J {
	d := J{"id": p.Task}
	if p.Maps != nil {
		in := J{}
		for _, m := range p.Maps {
			in[m.Name] = m.doc()
		}
		d["input"] = in
	}
	if p.OMaps != nil {
		o := J{}
		for _, m := range p.OMaps {
			o[m.Name] = m.doc()
		}
		d["output"] = o
	}
	return d
}

// genPatch generates patches and the case that the patched run corresponds to
func genPatch(s *Src, cs *Case, conc bool) ([]*tpatch, *Case) {
	n := *cs
	n.Flows = nil
	var ps []*tpatch
	used := usedOutputs(cs, true)
	for fi, f := range cs.Flows {
		nf := *f
		patch := func(g *Graph) *Graph {
			if g == nil {
				return nil
			}
			ng := *g
			ng.Tasks = nil
			for _, t := range g.Tasks {
				nt := *t
				if s.P(50) && cs.once(t.ID) {
					if p := genTaskPatch(s, cs, f, fi, t, used, conc); p != nil {
						ps = append(ps, p)
						if p.Maps != nil {
							nt.Maps = p.Maps
						}
						nt.OMaps = p.OMaps
					}
				}
				ng.Tasks = append(ng.Tasks, &nt)
			}
			return &ng
		}
		nf.G, nf.EH = patch(f.G), patch(f.EH)
		n.Flows = append(n.Flows, &nf)
	}
	return ps, &n
}

func genTaskPatch(s *Src, cs *Case, f *Flow, fi int, t *Task, used map[string]bool, conc bool) *tpatch {
	p := &tpatch{Task: t.ID}
	for _, m := range t.Maps {
		if m.E != nil && probes(m.E, "T") {
			return nil // may fail
		}
	}
	lit := func(typ string) interface{} {
		v := genLitOf(s, typ)
		if v == "=not" {
			return "is"
		}
		return v
	}
	if s.P(80) {
		echo := false
		for _, o := range t.Outs {
			echo = echo || o.Kind == "echo"
		}
		have := map[string]bool{}
		for _, m := range t.Maps {
			x := *m
			have[m.Name] = true
			if m.Name == "pid" || m.Name == "pt" || m.Name == "k" || t.Sub > 0 && m.Name == cs.Flows[t.Sub-1].rec {
				p.Maps = append(p.Maps, &x)
				continue
			}
			typ := "any"
			if t.Sub > 0 {
				for _, q := range cs.Flows[t.Sub-1].In {
					if q.Name == m.Name {
						typ = q.Type
					}
				}
			}
			switch s.N(4) {
			case 0:
				if !(echo && m.Name == "a") {
					continue // is not mapped any longer
				}
			case 1:
				x = Mapping{Name: m.Name, Lit: lit(typ)}
			}
			if x.E == nil && x.Obj == nil {
				// values of a patch are taken as they are
				x.Want = x.Lit
				if str, ok := x.Lit.(string); ok && strings.HasPrefix(str, "=") {
					continue
				}
			}
			p.Maps = append(p.Maps, &x)
		}
		if t.Sub > 0 {
			for _, q := range cs.Flows[t.Sub-1].In {
				if !have[q.Name] && q.Name[0] != 'u' && s.P(25) {
					v := lit(q.Type)
					p.Maps = append(p.Maps, &Mapping{Name: q.Name, Lit: v, Want: v})
				}
			}
		} else {
			for _, nm := range []string{"b", "s"} {
				if !have[nm] && s.P(30) {
					v := s.Str("patched", "p2")
					if s.P(50) {
						p.Maps = append(p.Maps, &Mapping{Name: nm, Lit: v, Want: v})
					} else {
						p.Maps = append(p.Maps, &Mapping{Name: nm, E: FlowRef("pid")})
					}
				}
			}
		}
	}
	if t.Sub == 0 && t.Loop == nil && !used[t.ID] && !conc && s.P(40) {
		seen := map[string]bool{}
		for i, n := 0, 1+s.N(2); i < n; i++ {
			o := &OutMap{Name: s.Str("extra1", "extra2")}
			if len(f.Out) > 0 && s.P(80) {
				x := f.Out[s.N(len(f.Out))]
				if x.Name[0] != 'n' {
					o.Name = x.Name
				}
			}
			if seen[o.Name] {
				continue
			}
			seen[o.Name] = true
			if len(t.Outs) > 0 && s.P(60) {
				o.Ref = t.Outs[s.N(len(t.Outs))].Name
			} else {
				o.Lit = lit("any")
			}
			p.OMaps = append(p.OMaps, o)
		}
	}
	if p.Maps == nil && p.OMaps == nil {
		return nil
	}
	return p
}

// treq is one request
type treq struct {
	Kind   string      `json:"kind"`
	Method string      `json:"method,omitempty"`
	Path   string      `json:"path,omitempty"`
	Body   string      `json:"body,omitempty"`
	Patch  []*tpatch   `json:"patch,omitempty"`
	Icepts interface{} `json:"icepts,omitempty"`
	Save   *saveCase   `json:"save,omitempty"`

	want  int // 0: anything that is not a server error, 2, 4
	run   func() string
	after func()
}

type c18 struct {
	s    *Src
	o    *Outcome
	conc bool
	mu   sync.Mutex
}

func jsonText(s *Src, v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if s.P(10) {
		var buf bytes.Buffer
		_ = json.Indent(&buf, b, " ", "\t")
		b = buf.Bytes()
	}
	return b
}

func (c *c18) take(m *Model, what string) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	c.mu.Lock()
	defer c.mu.Unlock()
	for k, v := range m.feat {
		c.o.Feat[k] += v
	}
	c.o.Feat["executions"] += m.execs
	if m.viol != "" {
		if c.o.Hist == nil {
			c.o.Hist = append([]string{}, m.hist...)
		}
		return what + m.viol
	}
	return ""
}

func (c *c18) hang(a *answer) {
	if a.timeout() {
		c.mu.Lock()
		c.o.Hang = true
		c.mu.Unlock()
	}
}

// judge judges a run that was asked for, after the answer has come
func (c *c18) judge(r *Run, a *answer, in map[string]interface{}, id string) string {
	m := r.M
	m.mu.Lock()
	switch {
	case m.viol != "":
	case a.err != nil:
		m.fail("a valid request is not answered: %v", a.err)
	case a.code != 200 || !a.ok || a.id == "":
		m.fail("a valid request is answered with %v", a)
	case id != "" && a.id != id:
		m.fail("the answer to a request for instance %s tells id %s", id, a.id)
	case m.root.id != nil && !match(m.root.id, a.id):
		m.fail("the answer tells id %s, activities were executed in instance %v", a.id, m.root.id.Val)
	}
	bad := m.viol != ""
	m.mu.Unlock()
	c.hang(a)
	if !bad {
		m.recorded(in)
	}
	return c.take(m, "")
}

// json is the interceptor as a part of a request
func (c *C12Case) json() J {
	d := J{}
	b, err := json.Marshal(c.build())
	if err == nil {
		err = json.Unmarshal(b, &d)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func (cs *Case) graphs() []*Graph {
	var r []*Graph
	for _, f := range cs.Flows {
		for _, g := range []*Graph{f.G, f.EH} {
			if g != nil {
				r = append(r, g)
			}
		}
	}
	return r
}

// cloneCase is the case with tasks of its own
func cloneCase(cs *Case) *Case {
	n := *cs
	n.Flows = nil
	cp := func(g *Graph) *Graph {
		if g == nil {
			return nil
		}
		ng := *g
		ng.Tasks = nil
		for _, t := range g.Tasks {
			nt := *t
			ng.Tasks = append(ng.Tasks, &nt)
		}
		return &ng
	}
	for _, f := range cs.Flows {
		nf := *f
		nf.G, nf.EH = cp(f.G), cp(f.EH)
		n.Flows = append(n.Flows, &nf)
	}
	return &n
}

// patchWith gives the tasks the mappings of those of the patched case
func (cs *Case) patchWith(p *Case) {
	pg := p.graphs()
	for i, g := range cs.graphs() {
		for j, t := range g.Tasks {
			t.Maps, t.OMaps = pg[i].Tasks[j].Maps, pg[i].Tasks[j].OMaps
		}
	}
}

func (c *c18) start(l *Loaded, ic *C12Case) *treq {
	s := c.s
	cs := l.cs
	if s.P(75) {
		cs = cs.withInputs(s)
	}
	q := &treq{Kind: "start", Method: "POST", Path: "/flow/start"}
	in := copyMap(cs.In)
	body := J{"flowUri": l.uris[0]}
	opt := &RunOpts{Conc: c.conc}
	var use *C12Case
	if ic != nil {
		use = ic.forRun(cs, s.N(3))
		use.JSON = false
		body["interceptor"] = use.json()
		q.Icepts = use.Icepts
	} else if s.P(55) {
		var ps []*tpatch
		ps, cs = genPatch(s, cs, c.conc)
		ds := []interface{}{}
		for _, p := range ps {
			ds = append(ds, p.doc())
		}
		if s.P(10) {
			ds = append(ds, J{"id": "nosuch", "input": J{"x": 1}})
		}
		if s.P(8) {
			ds = append(ds, nil)
		}
		body["patch"] = J{"tasks": ds}
		q.Patch = ps
		c.o.Feat["patched-start"]++
		if len(ps) > 0 {
			c.o.Feat["patched-tasks"] += len(ps)
		}
	}
	if use != nil {
		c.o.Feat["intercepted-start"]++
	}
	r := newRun(cs, opt)
	r.detached = true
	if use != nil {
		use.hooks(r.M)
	}
	in["pid"] = r.M.pid
	if s.P(50) {
		body["data"] = in
		if s.P(20) {
			body["attrs"] = J{}
		}
	} else {
		body["attrs"] = in
		if s.P(20) {
			body["data"] = J{}
		}
	}
	switch s.N(12) {
	case 0:
		body["replyTo"] = "x"
	case 1:
		body["unknown"] = []interface{}{1}
	case 2:
		if use == nil {
			body["interceptor"] = J{"tasks": []interface{}{nil}}
		}
	case 3:
		if use == nil {
			body["interceptor"] = nil
		}
	}
	b := jsonText(s, body)
	q.Body = string(b)
	q.run = func() string {
		r.M.Start()
		a := send(q.Method, q.Path, b)
		return c.judge(r, a, in, "")
	}
	q.after = func() { endRun(r.M.pid) }
	return q
}

// saved makes the state of an instance in the middle of its run
func saved(l *Loaded, r *Run, pid string, in map[string]interface{}, at int) []byte {
	def, _, err := flowsupport.GetDefinition(l.uris[0])
	if err != nil || def == nil {
		panic("harness: no definition")
	}
	rec := instance.NewStateInstanceRecorder(nil, flowstate.RecordingModeOff, false)
	inst, err := instance.NewIndependentInstance("I"+pid, l.uris[0], def, rec, log.ChildLogger(log.RootLogger(), "saved"))
	if err != nil {
		panic("harness: " + err.Error())
	}
	d := copyMap(in)
	if d == nil {
		d = map[string]interface{}{}
	}
	d["pid"] = pid
	inst.SetResultHandler(newCollect())
	inst.UpdateStartTime()
	if r != nil {
		r.M.Start()
	}
	inst.Start(d)
	for i := 0; i < at && inst.Status() == model.FlowStatusActive; i++ {
		if !inst.DoStep() {
			break
		}
	}
	if r != nil {
		r.M.mu.Lock()
		bad := r.M.viol != ""
		r.M.mu.Unlock()
		if bad {
			return nil
		}
	}
	if inst.Status() != model.FlowStatusActive {
		return nil
	}
	b, err := json.Marshal(inst)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

func (c *c18) again(l *Loaded, sc *saveCase, resume bool) *treq {
	s := c.s
	q := &treq{Kind: "restart", Method: "POST", Path: "/flow/restart", Save: sc}
	key := "initialState"
	if resume {
		q.Kind, q.Path, key = "resume", "/flow/resume", "state"
	}
	// the tasks of the model are changed when the state is continued with a patch
	cs := cloneCase(sc.Flows)
	var patched *Case
	var use *C12Case
	var ps []*tpatch
	switch s.Pick(45, 30, 25) {
	case 1:
		ps, patched = genPatch(s, cs, c.conc)
	case 2:
		use = &C12Case{Case: cs}
		used := usedOutputs(cs, c.conc)
		for fi, f := range cs.Flows {
			for _, g := range []*Graph{f.G, f.EH} {
				if g == nil {
					continue
				}
				for _, t := range g.Tasks {
					if s.P(50) {
						n := len(use.Icepts)
						use.icept(s, fi, f, t, used, c.conc, false)
						if ic := use.Icepts[n]; t.Sub > 0 && ic.Type == icMock {
							// the outputs of a subflow that had ended when the instance was saved may still
							// have to be replaced
							ic.Type, ic.Outputs, ic.OutWant = icAssert, nil, nil
						}
					}
				}
			}
		}
	}
	r := newRun(cs, &RunOpts{Conc: c.conc})
	r.detached = true
	r.M.givenID = true
	q.after = func() { endRun(r.M.pid) }
	b := saved(l, r, r.M.pid, sc.Flows.In, sc.Saves[0].At)
	if b == nil {
		if v := c.take(r.M, "before the request: "); v != "" {
			q.run = func() string { return v }
			return q
		}
		q.after()
		return nil // there is nothing to continue
	}
	if r.M.savedFeat() {
		c.o.Feat["continued-in-the-middle"]++
	}
	data := J{"pid": r.M.pid}
	if s.P(30) {
		data["unused"] = genLitOf(s, "any")
	}
	upd := J{}
	r.M.mu.Lock()
	open := r.M.root.status == csActive
	r.M.mu.Unlock()
	if s.P(40) && open {
		for _, p := range sc.Flows.Flows[0].In {
			if p.Name[0] != 'u' && s.P(40) && !steers(sc.Flows.Flows[0], p.Name, sc.Saves[0].At > 0) {
				upd[p.Name] = genLitOf(s, p.Type)
				data[p.Name] = upd[p.Name]
			}
		}
	}
	if len(upd) > 0 {
		c.o.Feat["attributes-updated"]++
	}
	body := J{key: json.RawMessage(b), "data": data}
	switch s.N(8) {
	case 0:
		body["interceptor"] = J{"tasks": []interface{}{J{"id": "nosuch", "skip": true}}}
	case 1:
		body["patch"] = J{"tasks": []interface{}{}}
	case 2:
		body["interceptor"] = J{}
	case 3:
		body["patch"] = nil
	}
	if len(ps) > 0 {
		ds := []interface{}{}
		for _, p := range ps {
			ds = append(ds, p.doc())
		}
		body["patch"] = J{"tasks": ds}
		q.Patch = ps
		c.o.Feat["patched-continuation"]++
	}
	if use != nil {
		body["interceptor"] = use.json()
		q.Icepts = use.Icepts
		c.o.Feat["intercepted-continuation"]++
	}
	t := jsonText(s, body)
	q.Body = string(t)
	q.run = func() string {
		r.M.mu.Lock()
		r.M.note("-- %s", q.Kind)
		r.M.mu.Unlock()
		id := "I" + r.M.pid
		if !resume {
			r.M.newIDs()
			id = ""
		}
		r.M.mu.Lock()
		for k, v := range upd {
			r.M.root.attrs[k] = v
		}
		if len(ps) > 0 {
			cs.patchWith(patched)
		}
		r.M.mu.Unlock()
		if use != nil {
			use.hooks(r.M)
		}
		a := send(q.Method, q.Path, t)
		if a.err == nil && !resume && a.id == "I"+r.M.pid {
			return "a restarted instance keeps the id of the saved one"
		}
		return c.judge(r, a, data, id)
	}
	return q
}

// steers: the attribute is used for something other than inputs of tasks, it
// may or may not have been looked at when the instance was saved
func steers(f *Flow, name string, links bool) bool {
	for _, g := range []*Graph{f.G, f.EH} {
		for i := 0; g != nil && i < len(g.Tasks); i++ {
			// an empty loop does not tell when it is done
			links = links || g.Tasks[i].Loop != nil && g.Tasks[i].Loop.MayBeEmpty
		}
	}
	is := func(e *Expr) bool {
		return e.Find(func(x *Expr) bool { return x.K == "flow" && x.Name == name })
	}
	for _, g := range []*Graph{f.G, f.EH} {
		if g == nil {
			continue
		}
		for _, l := range g.Links {
			if links && is(l.Cond) {
				return true
			}
		}
		for _, t := range g.Tasks {
			if is(t.SetFail) || is(t.SetOK) || t.Loop != nil && (is(t.Loop.On) || is(t.Loop.Cond)) || t.Retry != nil && is(t.Retry.CountE) {
				return true
			}
		}
	}
	return false
}

// spoil replaces a part of a saved state by something of another type
func spoil(s *Src, st J) {
	other := func(not string) interface{} {
		for {
			switch k := s.Str("string", "number", "bool", "list", "object"); {
			case k == not:
			case k == "string":
				return "x"
			case k == "number":
				return 4711
			case k == "bool":
				return true
			case k == "list":
				return []interface{}{1, "x"}
			default:
				return J{"x": 1}
			}
		}
	}
	list := s.Str("tasks", "links", "workQueue", "subFlows")
	fields := map[string][]string{"tasks": {"id string", "status number", "inputs object", "outputs object", "settings object", "workingData object"}, "links": {"linkId number", "status number"},
		"workQueue": {"id number", "taskId string", "subFlowId number"}, "subFlows": {"subFlowId number", "hostFlowId number", "hostTask string", "flowUri string", "status number", "tasks list", "links list", "attrs object"}}
	items, _ := st[list].([]interface{})
	switch k := s.N(4); {
	case k == 0:
		f := s.Str("id string", "status number", "attrs object", "subFlowCtr number")
		i := strings.IndexByte(f, ' ')
		st[f[:i]] = other(f[i+1:])
	case k == 1 || len(items) == 0:
		st[list] = other("list")
	case k == 2:
		items[s.N(len(items))] = other("object")
	default:
		it, ok := items[s.N(len(items))].(J)
		if !ok {
			st[list] = other("list")
			return
		}
		f := fields[list][s.N(len(fields[list]))]
		i := strings.IndexByte(f, ' ')
		it[f[:i]] = other(f[i+1:])
	}
}

// bad makes a request that is malformed, or may be so
func (c *c18) bad(l *Loaded) *treq {
	s := c.s
	pid := newFree()
	q := &treq{Kind: "malformed", Method: "POST", want: 4, after: func() { freeRuns.Delete(pid) }}
	op := s.N(3)
	q.Path = []string{"/flow/start", "/flow/restart", "/flow/resume"}[op]
	key := []string{"", "initialState", "state"}[op]
	in := copyMap(l.cs.In)
	if in == nil {
		in = J{}
	}
	in["pid"] = pid
	valid := func() J {
		if op == 0 {
			d := J{"flowUri": l.uris[0], "data": in}
			if s.P(30) {
				d["interceptor"] = J{"tasks": []interface{}{J{"id": l.cs.Flows[0].G.anyTask(s), "skip": true, "inputs": J{"a": 1}, "outputs": J{"val": "x"}, "type": s.N(7),
					"assertions": []interface{}{J{"ID": "1", "Name": "a", "Type": 1, "Expression": "1 == 1"}}}}}
			}
			if s.P(30) {
				d["patch"] = J{"tasks": []interface{}{J{"id": l.cs.Flows[0].G.anyTask(s), "input": J{"pid": pid, "a": "=$flow.pid"}, "output": J{"r0": "=$.val"}}}}
			}
			return d
		}
		b := saved(l, nil, pid, l.cs.In, s.N(6))
		if b == nil {
			b = saved(l, nil, pid, l.cs.In, 0)
		}
		var st interface{}
		if err := json.Unmarshal(b, &st); err != nil || st == nil {
			st = J{"id": "x", "flowUri": l.uris[0], "status": 100}
		}
		return J{key: st, "data": J{"pid": pid}}
	}
	text := func(v interface{}) {
		b, _ := json.Marshal(v)
		q.Body = string(b)
	}
	switch k := s.N(12); k {
	case 0:
		q.Body = s.Str("", "x", "{", "[]", "5", `"x"`, "{\"flowUri\":", "nul", "\x00", "<a/>", `{"flowUri":5}`, `{"initialState":7,"state":7,"data":3}`)
	case 1:
		q.Body = s.Str("{}", "null", `{"flowUri":null}`, `{"initialState":null,"state":null}`, `{"data":{}}`, `{"flowUri":""}`)
	case 2: // truncated
		b, _ := json.Marshal(valid())
		q.Body = string(b[:s.N(len(b))])
	case 3: // unknown flow
		uri := s.Str("res://flow:nosuch", "nosuch", "bogus://x", "res://", "res://flow", "://", "file:///nosuch/nosuch.json", " ", "res://flow:nosuch?x")
		d := valid()
		if op == 0 {
			d["flowUri"] = uri
		} else if st, ok := d[key].(J); ok {
			st["flowUri"] = uri
		}
		text(d)
	case 4: // parts of another type
		d := valid()
		if st, ok := d[key].(J); ok && s.P(60) {
			spoil(s, st)
			text(d)
			break
		}
		ks := sortedKeys(d)
		k := ks[s.N(len(ks))]
		d[k] = []interface{}{[]interface{}{1}, "x", 5, true, []interface{}{}}[s.N(5)]
		if _, ok := d[k].(string); ok && k == "flowUri" {
			d[k] = 17
		}
		text(d)
	case 5:
		if op == 0 {
			// mappings that cannot be parsed
			d := valid()
			d["patch"] = J{"tasks": []interface{}{J{"id": "nosuch", s.Str("input", "output"): J{"a": "=" + s.Str("1 +", "$flow.", "f(", "((")}}}}
			q.want = 0
			text(d)
			break
		}
		// null entries and unknown parts
		d := valid()
		st, ok := d[key].(J)
		if !ok {
			text(d)
			break
		}
		list := s.Str("tasks", "links", "workQueue", "subFlows")
		var x interface{}
		if s.P(50) {
			switch list {
			case "tasks":
				x = J{"id": "nosuch", "status": 20}
			case "links":
				x = J{"linkId": 4711, "status": 1}
			case "workQueue":
				x = J{"id": 1, "taskId": "nosuch", "subFlowId": s.N(2)}
			case "subFlows":
				x = J{"subFlowId": 9, "hostFlowId": 9, "hostTask": l.cs.Flows[0].G.anyTask(s), "flowUri": l.uris[0], "status": 100,
					"tasks": []interface{}{J{"id": l.cs.Flows[0].G.anyTask(s), "status": 20}}}
				st["workQueue"] = []interface{}{J{"id": 1, "taskId": l.cs.Flows[0].G.anyTask(s), "subFlowId": 9}}
			}
		}
		old, _ := st[list].([]interface{})
		st[list] = append(append([]interface{}{}, old...), x)
		text(d)
	case 6: // wrong path or method
		q.Kind = "wrong-path"
		switch s.N(4) {
		case 0:
			q.Method = s.Str("GET", "PUT", "DELETE", "PATCH", "HEAD")
		case 1:
			q.Path = s.Str("/", "/flow", "/flow/begin", "/flow/start/x", "/nosuch", "/status/x")
			text(valid())
		case 2:
			q.Path, q.Method = "/status", "POST"
		default:
			q.Path, q.Method = s.Str("/flow/start", "/flow/restart", "/flow/resume"), "GET"
		}
	case 7: // a state in which nothing is left to do
		q.want = 0
		d := valid()
		if st, ok := d[key].(J); ok {
			if s.P(50) {
				delete(st, "workQueue")
			} else {
				st["workQueue"] = []interface{}{}
			}
			if s.P(30) {
				st["status"] = []interface{}{0, 500, 600, 700, -1}[s.N(5)]
			}
		}
		text(d)
	case 8: // mutated text
		q.want = 0
		b, _ := json.Marshal(valid())
		for i, n := 0, 1+s.N(3); i < n; i++ {
			j := s.N(len(b))
			switch s.N(3) {
			case 0:
				b[j] = "{}[]\",:0-x\x00\xff"[s.N(12)]
			case 1:
				b = append(b[:j], b[j+1:]...)
			default:
				b = append(b[:j], append([]byte{b[s.N(len(b))]}, b[j:]...)...)
			}
			if len(b) == 0 {
				b = []byte("{")
			}
		}
		q.Body = string(b)
	default: // mutated document
		q.want = 0
		var d interface{} = valid()
		d = clone(d)
		for i, n := 0, 1+s.N(3); i < n; i++ {
			if m, ok := d.(J); ok && key != "" && m[key] != nil && s.P(80) {
				m[key] = mutate(s, m[key], 0)
			} else if ok && op == 0 && s.P(60) {
				k := s.Str("interceptor", "patch", "data")
				if m[k] != nil {
					m[k] = mutate(s, m[k], 0)
				}
			} else {
				d = mutate(s, d, 0)
			}
		}
		text(d)
	}
	if c.conc && key != "" && q.want == 0 {
		// a task that is queued twice is executed twice at once
		var d J
		if json.Unmarshal([]byte(q.Body), &d) == nil {
			if st, ok := d[key].(J); ok {
				if l, ok := st["workQueue"].([]interface{}); ok && len(l) > 1 {
					st["workQueue"] = l[:1]
					text(d)
				}
			}
		}
	}
	if q.want == 0 {
		c.o.Feat["perhaps-malformed"]++
	} else {
		c.o.Feat["malformed"]++
	}
	q.run = func() string {
		a := send(q.Method, q.Path, []byte(q.Body))
		c.hang(a)
		switch {
		case a.err != nil:
			return fmt.Sprintf("%s %s is not answered: %v\n%.1500s", q.Method, q.Path, a.err, q.Body)
		case a.code >= 500 || a.code < 200:
			return fmt.Sprintf("%s %s is answered with %v\n%.1500s", q.Method, q.Path, a, q.Body)
		case q.want == 4 && a.code < 400:
			return fmt.Sprintf("%s %s, which is malformed, is answered with %v\n%.1500s", q.Method, q.Path, a, q.Body)
		case a.code < 400 && (!a.ok || a.code != 200):
			return fmt.Sprintf("%s %s is answered with %v, which has no id\n%.1500s", q.Method, q.Path, a, q.Body)
		}
		c.mu.Lock()
		if a.code < 400 {
			c.o.Feat["mutated-accepted"]++
		} else {
			c.o.Feat["client-error"]++
		}
		c.mu.Unlock()
		return ""
	}
	return q
}

func (g *Graph) anyTask(s *Src) string {
	if len(g.Tasks) == 0 {
		return "none"
	}
	return g.Tasks[s.N(len(g.Tasks))].ID
}

func (c *c18) status() *treq {
	s := c.s
	q := &treq{Kind: "status", Method: "GET", Path: "/status"}
	if s.P(40) {
		q.Method, q.Path = "OPTIONS", s.Str("/status", "/flow/start", "/flow/restart", "/flow/resume")
	}
	q.run = func() string {
		a := send(q.Method, q.Path, nil)
		c.hang(a)
		if a.err != nil || a.code < 200 || a.code > 299 || q.Method == "GET" && !strings.Contains(a.body, `"ok"`) {
			return fmt.Sprintf("%s %s is answered with %v", q.Method, q.Path, a)
		}
		return ""
	}
	return q
}

func runC18(cx *Cx) *Outcome {
	s := cx.S
	c := &c18{s: s, o: &Outcome{Feat: map[string]int{}}, conc: len(cx.Var.Env) > 1}
	o := c.o
	ends.reset()
	type prog struct {
		l  *Loaded
		ic *C12Case
		sc *saveCase
	}
	var progs []*prog
	var cases []interface{}
	for i, n := 0, 1+s.N(2); i < n; i++ {
		p := &prog{}
		var cs *Case
		switch s.N(4) {
		case 0:
			p.ic = genC12(s, c.conc)
			cs = p.ic.Case
			cases = append(cases, p.ic)
		case 1:
			cs = genC13Case(s, c.conc)
			cases = append(cases, cs)
		default:
			p.sc = genC09(s, c.conc)
			cs = p.sc.Flows
			cases = append(cases, cs)
		}
		l, err := load(cs)
		defer l.unload()
		if err != nil {
			o.Viol = "a valid flow is rejected: " + err.Error()
			return o
		}
		p.l = l
		progs = append(progs, p)
	}
	var qs []*treq
	for i, n := 0, 1+s.N(6); i < n; i++ {
		p := progs[s.N(len(progs))]
		var q *treq
		switch k := s.N(20); {
		case k < 8:
			if p.sc != nil && s.P(70) {
				sc := *p.sc
				sc.Saves = []savePoint{{At: s.N(1 + 2*p.sc.Saves[0].At + 3)}}
				q = c.again(p.l, &sc, s.P(40))
			}
			if q == nil {
				q = c.start(p.l, p.ic)
			}
		case k < 12:
			q = c.start(p.l, p.ic)
		case k < 19:
			q = c.bad(p.l)
		default:
			q = c.status()
		}
		qs = append(qs, q)
		o.Feat["request-"+q.Kind]++
	}
	clients := 1
	if len(qs) > 1 {
		clients += s.Pick(3, 1, 1)
	}
	o.Case = map[string]interface{}{"programs": cases, "requests": qs, "clients": clients}
	defer func() {
		for _, q := range qs {
			if q.after != nil {
				q.after()
			}
		}
	}()
	var wg sync.WaitGroup
	for k := 0; k < clients; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < len(qs); i += clients {
				c.mu.Lock()
				bad := o.Viol != ""
				c.mu.Unlock()
				if bad {
					return
				}
				if v := qs[i].run(); v != "" {
					c.mu.Lock()
					if o.Viol == "" {
						o.Viol = fmt.Sprintf("request %d (%s): %s", i+1, qs[i].Kind, v)
					}
					c.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	o.Non = o.Feat["request-start"]+o.Feat["request-restart"]+o.Feat["request-resume"] > 0 && o.Feat["malformed"]+o.Feat["perhaps-malformed"] > 0 || o.Feat["executions"] > 2
	takeOrphans()
	return o
}

func init() {
	steps := "FLOGO_MAX_STEP_COUNT=4000"
	mk := func(name string, race bool, env ...string) Variant {
		return Variant{Name: name, Race: race, Env: append([]string{steps}, env...)}
	}
	register(&Prop{ID: "C18", Quick: 12000, Thorough: 300000, Run: runC18, Init: initC18,
		Variants: []Variant{mk("sequential", false), mk("race", true), mk("concurrent", false, concVar.Env...), mk("concurrent-race", true, concVar.Env...)},
		Rule:     "Sequences of requests to the tester service, by one to three clients at once: starts with data, interceptors and patches, restarts and resumes of instances saved in the middle of their run, health checks, and malformed ones (no JSON, cut off, other types, unknown flows, paths and methods, states with null, unknown or contradictory parts, mutations of valid requests); non-trivial: valid and malformed requests in one sequence, or runs of more than two activities"})
}
