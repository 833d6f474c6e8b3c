package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data/expression/function"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/data/property"
	"github.com/project-flogo/core/data/schema"
	"github.com/project-flogo/core/engine"
	"github.com/project-flogo/core/support/service"
	_ "github.com/project-flogo/flow"
	_ "github.com/project-flogo/flow/activity/subflow"
	"github.com/project-flogo/flow/instance"
	flowsupport "github.com/project-flogo/flow/support"
	"verif/harness/vact"
	_ "verif/harness/vbyp"
	"verif/harness/vf"
	_ "verif/harness/vfix"
	"verif/harness/vpost"
)

// The runner: executes generated flows through the public API and reports what
// happens to the model.

const flowRef = "github.com/project-flogo/flow"

type initCtx struct {
	resources map[string]*resource.Resource
	rm        *resource.Manager
	sm        *service.Manager
	settings  map[string]interface{}
}

func (c *initCtx) ServiceManager() *service.Manager        { return c.sm }
func (c *initCtx) RuntimeSettings() map[string]interface{} { return c.settings }
func (c *initCtx) ResourceManager() *resource.Manager      { return c.rm }

var (
	ictx     *initCtx
	factory  action.Factory
	runSeq   int64
	caseSeq  int64
	runs     sync.Map // root token -> *Run
	orphanMu sync.Mutex
	orphans  []string
)

// appVar tells what the application is to be known as
func appVar(k string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	switch k {
	case "FLOGO_APP_NAME":
		return "verif-app"
	case "FLOGO_APP_VERSION":
		return "4.5.6"
	case "FLOGO_APP_USERNAME":
		return "flogo"
	}
	h, _ := os.Hostname()
	return h
}

// namedApp is the environment that gives the application other names
var namedApp = []string{"FLOGO_APP_NAME=app x", "FLOGO_APP_VERSION=v-7", "FLOGO_APP_USERNAME=some one", "FLOGO_HOST_NAME=a-host"}

func initEngine(services []service.Service, settings map[string]interface{}) {
	function.ResolveAliases()
	if _, err := engine.LoadAppConfig(`{"name":"verif-app","version":"4.5.6"}`, false); err != nil {
		panic("harness: " + err.Error())
	}
	property.SetDefaultManager(property.NewManager(appProps))
	for k, v := range appEnv {
		_ = os.Setenv(k, v.(string))
	}
	res := map[string]*resource.Resource{}
	ictx = &initCtx{resources: res, rm: resource.NewManager(res), sm: service.NewServiceManager(), settings: settings}
	for _, s := range services {
		if err := ictx.sm.RegisterService(s); err != nil {
			panic("harness: " + err.Error())
		}
	}
	factory = action.GetFactory(flowRef)
	if err := factory.Initialize(ictx); err != nil {
		panic("harness: " + err.Error())
	}
	vact.Hook = hook
	vf.Probe = probe
	vpost.Hook = postHook
}

// Run is one run under observation
type Run struct {
	M       *Model
	mu      sync.Mutex
	replies []map[string]interface{}
	doneCh  chan struct{}
	once    sync.Once
	gate    *Gate
	// called for every activity, after the model accepted it
	onAct func(ti *TI, ctx activity.Context)
	// the same with the activity object
	onObj func(a *vact.Activity, ti *TI, ctx activity.Context)
	ret   error
	sleep bool
	// nobody waits for its results
	detached bool
}

func (r *Run) HandleResult(d map[string]interface{}, err error) { r.M.Result(d, err) }
func (r *Run) Done() {
	r.M.Done()
	r.once.Do(func() { close(r.doneCh) })
	if r.gate != nil {
		r.gate.kick()
	}
}

func rootOf(pid string) string {
	if i := strings.IndexByte(pid, '.'); i >= 0 {
		return pid[:i]
	}
	return pid
}

// the histories of the last runs that were ended
var (
	curCase int64
	gone    = map[string]*Model{}
	goneIDs []string
)

func endRun(pid string) {
	if v, ok := runs.Load(pid); ok {
		orphanMu.Lock()
		if len(goneIDs) > 300 {
			delete(gone, goneIDs[0])
			goneIDs = goneIDs[1:]
		}
		gone[pid] = v.(*Run).M
		goneIDs = append(goneIDs, pid)
		orphanMu.Unlock()
	}
	runs.Delete(pid)
}

func orphan(pid, s string) {
	orphanMu.Lock()
	defer orphanMu.Unlock()
	if m := gone[rootOf(pid)]; m != nil && m.mu.TryLock() {
		s += fmt.Sprintf(" (of case %d), its history:\n%s", m.caseNo, strings.Join(m.hist, "\n"))
		m.mu.Unlock()
	}
	if len(orphans) < 10 {
		orphans = append(orphans, s)
	}
}

func takeOrphans() []string {
	orphanMu.Lock()
	defer orphanMu.Unlock()
	o := orphans
	orphans = nil
	return o
}

func runOf(pid string) *Run {
	v, ok := runs.Load(rootOf(pid))
	if !ok {
		return nil
	}
	return v.(*Run)
}

func probe(kind, pid, task string, key interface{}) interface{} {
	if freeRun(pid) != nil {
		return pid
	}
	r := runOf(pid)
	if r == nil {
		orphan(pid, fmt.Sprintf("mapping of task %q evaluated in unknown run %q", task, pid))
		return ""
	}
	v := r.M.Probe(kind, pid, task, key)
	if r.gate != nil {
		r.gate.kick()
	}
	return v
}

type VErr struct{ s string }

func (e *VErr) Error() string { return e.s }

var legacyOuts = []string{"val", "tag", "i", "o", "arr", "in"}

func hook(a *vact.Activity, ctx activity.Context) (bool, error) {
	raw := &vact.RawInputs{}
	_ = ctx.GetInputObject(raw)
	pid, _ := raw.M["pid"].(string)
	task, _ := raw.M["pt"].(string)
	if freeRun(pid) != nil {
		return true, freeRun(pid)()
	}
	r := runOf(pid)
	if r == nil {
		orphan(pid, fmt.Sprintf("activity %q executed in unknown run %q", ctx.Name(), pid))
		return true, nil
	}
	host := ctx.ActivityHost()
	in := make(map[string]interface{}, len(raw.M))
	for k, v := range raw.M {
		in[k] = v
	}
	fname := ""
	if n, ok := host.(interface{ Name() string }); ok {
		fname = n.Name()
	}
	ti, beh, outs := r.M.Begin(pid, task, in, host.ID(), fname, ctx.Name())
	if ti == nil {
		if r.gate != nil {
			r.gate.kick()
		}
		return true, nil
	}
	r.M.waited(ti)
	if r.onAct != nil {
		r.onAct(ti, ctx)
	}
	if r.onObj != nil {
		r.onObj(a, ti, ctx)
	}
	if r.gate != nil {
		r.gate.wait(ti)
	}
	if r.sleep {
		runtime.Gosched()
	}
	r.M.mu.Lock()
	tok := ti.tok(beh)
	r.M.mu.Unlock()
	// what the activity does
	for k, v := range raw.M {
		if !match(v, ctx.GetInput(k)) {
			r.M.mu.Lock()
			r.M.fail("input %s of task %s of %s is %s when it is read alone, but %s in the object of all inputs", k, task, pid, show(ctx.GetInput(k)), show(v))
			r.M.mu.Unlock()
		}
	}
	if sc, ok := ctx.(schema.HasSchemaIO); ok {
		for _, k := range sortedKeys(ti.t.InSch) {
			if !ti.t.InSch[k].same(sc.GetInputSchema(k)) {
				r.M.mu.Lock()
				r.M.fail("task %s of %s sees another schema of its input %s than the flow says", task, pid, k)
				r.M.mu.Unlock()
			}
		}
		for _, k := range sortedKeys(ti.t.OutSch) {
			if !ti.t.OutSch[k].same(sc.GetOutputSchema(k)) {
				r.M.mu.Lock()
				r.M.fail("task %s of %s sees another schema of its output %s than the flow says", task, pid, k)
				r.M.mu.Unlock()
			}
		}
	}
	lc, _ := ctx.(activity.LegacyCtx)
	_, isInst := ctx.(*instance.TaskInst)
	if ti.t.Legacy == isInst {
		r.M.mu.Lock()
		r.M.fail("task %s of %s, whose activity is of the old kind: %v, gets a context of type %T", task, pid, ti.t.Legacy, ctx)
		r.M.mu.Unlock()
	} else if ti.t.Legacy {
		for _, k := range legacyOuts {
			if !same(ti.t.LegOut[k], lc.GetOutput(k)) {
				r.M.mu.Lock()
				r.M.fail("task %s of %s: its output %s is %s at first, not %s", task, pid, k, show(lc.GetOutput(k)), show(ti.t.LegOut[k]))
				r.M.mu.Unlock()
			}
		}
		for _, k := range cfgNames {
			w, has := ti.t.Cfg[k]
			if v, ok := lc.GetSetting(k); ok != has || !same(w, v) {
				r.M.mu.Lock()
				r.M.fail("task %s of %s: its setting %s is %s, not %s", task, pid, k, show(v), show(w))
				r.M.mu.Unlock()
			}
		}
	}
	if beh.Junk != "" {
		_ = ctx.SetOutput(beh.Junk, "junk")
	}
	if beh.Kind == "ok" {
		eo := map[string]interface{}{}
		for k, v := range outs {
			eo[k] = ti.t.typed(k, v)
		}
		if ts, ok := ctx.(interface {
			SetOutputs(map[string]interface{}) error
		}); ok && len(outs) == 3 {
			_ = ts.SetOutputs(eo)
		} else if len(outs) == 2 {
			_ = ctx.SetOutputObject(&vact.RawInputs{M: eo})
		} else {
			for _, k := range sortedKeys(outs) {
				_ = ctx.SetOutput(k, eo[k])
			}
		}
		for _, k := range legacyOuts {
			if w, ok := eo[k]; ok && ti.t.Legacy && normJSON(lc.GetOutput(k)) != normJSON(w) {
				r.M.mu.Lock()
				r.M.fail("task %s of %s: its output %s is %s after it was set to %s", task, pid, k, show(lc.GetOutput(k)), show(w))
				r.M.mu.Unlock()
			}
		}
		for _, k := range sortedKeys(beh.Set) {
			_ = host.Scope().SetValue(k, beh.Set[k])
		}
		if beh.Reply != nil {
			if ti.c.parent == nil && !r.detached {
				r.mu.Lock()
				r.replies = append(r.replies, beh.Reply)
				n := len(r.replies)
				r.mu.Unlock()
				host.Reply(copyMap(beh.Reply), nil)
				r.M.checkReply(n, ti)
			} else {
				host.Reply(copyMap(beh.Reply), nil)
			}
		}
		if beh.Ret != nil && !r.M.conc {
			host.Return(copyMap(beh.Ret), retErr(beh))
		}
	}
	r.M.End(ti, beh, outs)
	if beh.Kind == "ok" && beh.Ret != nil && r.M.conc {
		// a return may end the flow before the returning activity has ended
		host.Return(copyMap(beh.Ret), retErr(beh))
	}
	if r.gate != nil {
		r.gate.kick()
	}
	if beh.Kind != "ok" {
		return false, scriptErr(beh, tok)
	}
	return true, nil
}

func retErr(b Beh) error {
	if b.RetEr == "" {
		return nil
	}
	return errors.New(b.RetEr)
}

// postHook: an activity is told that the flow that it called has ended
func postHook(ctx activity.Context) (bool, error) {
	pid, _ := ctx.GetInput("pid").(string)
	r := runOf(pid)
	if r == nil {
		orphan(pid, fmt.Sprintf("activity %q of unknown run %q is told that its flow has ended", ctx.Name(), pid))
		return true, nil
	}
	beh, tok := r.M.PostEval(pid)
	if r.gate != nil {
		r.gate.kick()
	}
	if beh.Kind == "ok" {
		return true, nil
	}
	return false, scriptErr(beh, tok)
}

// scriptErr returns or raises the error of an activity
func scriptErr(beh Beh, tok string) error {
	switch beh.Kind {
	case "retriable", "err":
		e := activity.NewError(tok, beh.Code, beh.Data)
		if beh.Kind == "retriable" {
			e = activity.NewRetriableError(tok, beh.Code, beh.Data)
		}
		if len(tok)%2 == 0 {
			// an error that another activity has returned before
			e.SetActivityName("elsewhere")
		}
		return e
	case "plain":
		return errors.New(tok)
	case "panic":
		panic(tok)
	case "nilpanic":
		var m map[string]int
		m["x"] = 1
	}
	return nil
}

// checkReply: the reply must have reached the caller when Reply returns
func (m *Model) checkReply(n int, ti *TI) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.res) < n {
		m.fail("reply of task %s did not reach the caller at once", ti.t.ID)
	}
	m.feat["reply"]++
}

// waited checks that a loop or a retry waits as configured before the activity is executed again
func (m *Model) waited(ti *TI) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if ti.gap > 0 && !(m.conc && ti.t.Async) {
		if d := time.Since(ti.begun); d < time.Duration(ti.gap)*time.Millisecond {
			m.fail("task %s of %s is executed again %v after the last execution began, it has to wait %d ms", ti.t.ID, ti.c.pid, d, ti.gap)
		}
		m.feat["waited"]++
	}
	ti.begun, ti.gap = time.Now(), 0
}

func copyMap(m map[string]interface{}) map[string]interface{} {
	if m == nil {
		return nil
	}
	r := make(map[string]interface{}, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Gate lets activities of a concurrent run end in a chosen order
type Gate struct {
	m     *Model
	src   *Src
	ch    chan struct{}
	wmu   sync.Mutex
	wait_ map[*TI]chan struct{}
	maxW  int
	sim   int
	open  bool // nothing is held any longer
}

func (g *Gate) kick() {
	select {
	case g.ch <- struct{}{}:
	default:
	}
}

func (g *Gate) wait(ti *TI) {
	c := make(chan struct{})
	g.wmu.Lock()
	if g.open {
		g.wmu.Unlock()
		return
	}
	g.wait_[ti] = c
	g.wmu.Unlock()
	g.kick()
	<-c
}

// enabledCount counts what has to begin according to the model
func (m *Model) enabledCount() (n int, names []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	var walk func(c *Cont)
	walk = func(c *Cont) {
		for _, id := range sortedKeys(c.ti) {
			ti := c.ti[id]
			if ti.state == tsEnabled || ti.post {
				n++
				names = append(names, c.pid+"/"+id)
			}
			if ti.state == tsSub && ti.child != nil {
				walk(ti.child)
			}
		}
	}
	walk(m.root)
	return
}

// control releases activities as chosen by the source
func (g *Gate) control(done chan struct{}, choose func(n int) int, limit time.Duration) {
	last := time.Now()
	released := false
	for {
		select {
		case <-done:
			g.wmu.Lock()
			g.open = true
			g.wmu.Unlock()
			g.releaseAll()
			return
		case <-g.ch:
			last = time.Now()
		case <-time.After(2 * time.Millisecond):
		}
		g.m.mu.Lock()
		bad := g.m.viol != ""
		g.m.mu.Unlock()
		if bad {
			released = true
		}
		if released {
			g.releaseAll()
			continue
		}
		n, names := g.m.enabledCount()
		g.wmu.Lock()
		w := len(g.wait_)
		g.wmu.Unlock()
		if n > 0 && w > 0 && time.Since(last) > limit {
			g.m.mu.Lock()
			g.m.fail("stall: tasks %v do not begin while other activities are being executed", names)
			g.m.mu.Unlock()
			continue
		}
		if n > 0 || w == 0 {
			continue
		}
		// everything that can begin has begun
		g.wmu.Lock()
		var tis []*TI
		for ti := range g.wait_ {
			tis = append(tis, ti)
		}
		g.m.mu.Lock()
		sortTIs(tis)
		g.m.mu.Unlock()
		if len(tis) > g.maxW {
			g.maxW = len(tis)
		}
		k := 1
		if len(tis) > 1 {
			if c := choose(3); c > 0 {
				k = 1 + choose(len(tis))
			}
		}
		if k > 1 {
			g.sim++
		}
		for i := 0; i < k; i++ {
			j := choose(len(tis))
			ti := tis[j]
			tis = append(tis[:j], tis[j+1:]...)
			close(g.wait_[ti])
			delete(g.wait_, ti)
		}
		g.wmu.Unlock()
		last = time.Now()
	}
}

func sortTIs(t []*TI) {
	for i := 1; i < len(t); i++ {
		for j := i; j > 0 && tiLess(t[j], t[j-1]); j-- {
			t[j], t[j-1] = t[j-1], t[j]
		}
	}
}
func tiLess(a, b *TI) bool {
	if a.c.pid != b.c.pid {
		return a.c.pid < b.c.pid
	}
	return a.t.ID < b.t.ID
}

func (g *Gate) releaseAll() {
	g.wmu.Lock()
	defer g.wmu.Unlock()
	for ti, c := range g.wait_ {
		close(c)
		delete(g.wait_, ti)
	}
}

// RunOpts are the options of one observed run
type RunOpts struct {
	Conc     bool
	Choices  func(n int) int // gate order, nil: no gate
	Ctx      context.Context
	RO       *instance.RunOptions
	Limit    time.Duration
	Prepare  func(r *Run)
	Sleep    bool
	NoFinish bool
}

// Loaded is a set of loaded flows
type Loaded struct {
	cs   *Case
	uris []string
	act  action.Action
}

func (cs *Case) flowIDs(n int64) []string {
	var ids []string
	for i, f := range cs.Flows {
		id := f.ID
		if id == "" {
			id = fmt.Sprintf("c%d_%d", n, i)
		}
		ids = append(ids, "flow:"+id)
	}
	return ids
}

var quietBase int

// quiesce waits until no run of an earlier case is still under way, e.g. with
// work that was abandoned, as the resources must not be changed meanwhile
func quiesce() {
	t := time.Now()
	for {
		n := runtime.NumGoroutine()
		if n <= quietBase {
			return
		}
		if !engineBusy() {
			quietBase = n
			return
		}
		if time.Since(t) > quietLimit {
			quietBase = n
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
}

const quietLimit = 5 * time.Second

var busyBuf = make([]byte, 1<<16)

func engineBusy() bool {
	for {
		n := runtime.Stack(busyBuf, true)
		if n < len(busyBuf) || n > 1<<24 {
			b := busyBuf[:n]
			return bytes.Contains(b, []byte("project-flogo/flow/instance.")) || bytes.Contains(b, []byte("project-flogo/flow.(*FlowAction)")) ||
				bytes.Contains(b, []byte("project-flogo/flow/ondemand.")) || bytes.Contains(b, []byte("project-flogo/flow/activity"))
		}
		busyBuf = make([]byte, 2*len(busyBuf))
	}
}

// load loads the flows of the case as resources and creates the action of the first
func load(cs *Case) (*Loaded, error) {
	n := atomic.AddInt64(&caseSeq, 1)
	ids := cs.flowIDs(n)
	l := &Loaded{cs: cs}
	quiesce()
	for _, id := range ids {
		l.uris = append(l.uris, "res://"+id)
	}
	uri := func(i int) string { return l.uris[i] }
	for i, f := range cs.Flows {
		err := flowsupport.SetResource([]*resource.Config{{ID: ids[i], Data: f.JSON(uri)}})
		if err != nil {
			return l, err
		}
	}
	act, err := factory.New(&action.Config{Settings: map[string]interface{}{"flowURI": l.uris[0]}})
	if err != nil {
		return l, err
	}
	l.act = act
	return l, l.checkIO()
}

// checkIO checks that the action offers the inputs and outputs of the flow
func (l *Loaded) checkIO() error {
	md := l.act.IOMetadata()
	f := l.cs.Flows[0]
	if md == nil {
		if len(f.In)+len(f.Out) > 0 {
			return errors.New("its action has no inputs and outputs")
		}
		return nil
	}
	if len(md.Output) != len(f.Out) {
		return fmt.Errorf("its action has %d outputs, want %d", len(md.Output), len(f.Out))
	}
	for _, p := range f.In {
		if md.Input[p.Name] == nil {
			return fmt.Errorf("its action does not have the input %s", p.Name)
		}
	}
	for _, p := range f.Out {
		if md.Output[p.Name] == nil {
			return fmt.Errorf("its action does not have the output %s", p.Name)
		}
	}
	return nil
}

func (l *Loaded) unload() {
	quiesce()
	for _, u := range l.uris {
		delete(ictx.resources, u[6:])
	}
}

var errTimeout = errors.New("timeout")

func newRun(cs *Case, o *RunOpts) *Run {
	pid := "R" + strconv.FormatInt(atomic.AddInt64(&runSeq, 1), 10)
	m := NewModel(cs, pid, o.Conc)
	m.caseNo = int(atomic.LoadInt64(&curCase))
	r := &Run{M: m, doneCh: make(chan struct{}), sleep: o.Sleep}
	runs.Store(pid, r)
	return r
}

// exec runs the loaded flow once under observation
func (l *Loaded) exec(o *RunOpts) (*Run, error) {
	r := newRun(l.cs, o)
	defer endRun(r.M.pid)
	return r, l.execRun(r, o)
}

func (l *Loaded) execRun(r *Run, o *RunOpts) error {
	in := copyMap(l.cs.In)
	if in == nil {
		in = map[string]interface{}{}
	}
	in["pid"] = r.M.pid
	if o.RO != nil {
		in["_run_options"] = o.RO
	}
	if o.Prepare != nil {
		o.Prepare(r)
	}
	r.M.Start()
	return l.drive(r, in, o)
}

func (l *Loaded) drive(r *Run, in map[string]interface{}, o *RunOpts) error {
	limit := o.Limit
	if limit == 0 {
		limit = runLimit
	}
	var gateDone chan struct{}
	if o.Choices != nil {
		r.gate = &Gate{m: r.M, ch: make(chan struct{}, 1), wait_: map[*TI]chan struct{}{}}
		gateDone = make(chan struct{})
		go func() {
			r.gate.control(r.doneCh, o.Choices, limit)
			close(gateDone)
		}()
	}
	ctx := o.Ctx
	if ctx == nil {
		ctx = context.Background()
	}
	err := l.act.(action.AsyncAction).Run(ctx, in, r)
	if err != nil {
		r.ret = err
		r.M.mu.Lock()
		r.M.fail("the run could not be started: %v", err)
		r.M.mu.Unlock()
		if r.gate != nil {
			r.once.Do(func() { close(r.doneCh) })
			<-gateDone
		}
		return nil
	}
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-r.doneCh:
	case <-t.C:
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		r.M.mu.Lock()
		v := r.M.viol
		r.M.fail("hang: the run does not end")
		r.M.note("%s", flowStacks(string(buf)))
		r.M.mu.Unlock()
		if v != "" {
			return nil
		}
		return errTimeout
	}
	if gateDone != nil {
		<-gateDone
	}
	if !o.NoFinish {
		r.mu.Lock()
		rep := append([]map[string]interface{}{}, r.replies...)
		r.mu.Unlock()
		r.M.Finish(rep)
	}
	return nil
}

// flowStacks extracts the goroutines that are in the code under test
func flowStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "project-flogo/flow") {
			if len(g) > 1500 {
				g = g[:1500]
			}
			out = append(out, g)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n\n")
}

var runLimit = func() time.Duration {
	if v, err := strconv.Atoi(os.Getenv("VRUN_LIMIT_MS")); err == nil {
		return time.Duration(v) * time.Millisecond
	}
	return 25 * time.Second
}()

var bg = context.Background()

// collect collects the results of a run that is not judged by the model
type collector struct {
	mu    sync.Mutex
	res   []Res
	dones int
	late  int // results after the signal
	ch    chan struct{}
}

func newCollect() *collector { return &collector{ch: make(chan struct{}, 64)} }

func (c *collector) HandleResult(d map[string]interface{}, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.dones > 0 {
		c.late++
	}
	c.res = append(c.res, Res{Data: d, Err: err})
}

func (c *collector) Done() {
	c.mu.Lock()
	c.dones++
	c.mu.Unlock()
	c.ch <- struct{}{}
}

// wait waits for the end of the run
func (c *collector) wait() bool {
	select {
	case <-c.ch:
		return true
	case <-time.After(runLimit):
		return false
	}
}

func resConfig(id string, doc []byte) []*resource.Config {
	return []*resource.Config{{ID: id, Data: doc}}
}
