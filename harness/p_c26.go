package main

import (
	"errors"
	"fmt"
	"sync"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/flow/definition"
	"verif/harness/vact"
	"verif/harness/vbyp"
	"verif/harness/vfix"
	"verif/harness/vone"
)

// C26: the life of activities. Every activity of a flow is counted when it is
// created, used and cleaned up.

type lifeTask struct {
	flow    int
	eh      bool
	t       *Task
	want    map[string]interface{}
	obj     *vact.Activity
	noClean bool
	bad     bool // the cleanup fails
	cleaned int
}

func (t *lifeTask) String() string {
	return (&cfgTask{flow: t.flow, eh: t.eh, t: t.t}).String()
}

type c26 struct {
	mu      sync.Mutex
	o       *Outcome
	cs      *Case
	ops     []interface{}
	created []*vact.Activity
	isNew   map[*vact.Activity]bool
	byObj   map[*vact.Activity]*lifeTask
	ts      []*lifeTask
	one     int // cleanups of the shared activity
}

func (c *c26) fail(f string, a ...interface{}) {
	if c.o.Viol == "" {
		c.o.Viol = fmt.Sprintf(f, a...)
	}
}

func (c *c26) op(f string, a ...interface{}) { c.ops = append(c.ops, fmt.Sprintf(f, a...)) }

func (c *c26) newHook(a *vact.Activity, ctx activity.InitContext) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.created = append(c.created, a)
	c.isNew[a] = true
	if ctx.Logger() == nil {
		c.fail("an activity is created without a logger")
	}
	mf := ctx.MapperFactory()
	if mf == nil {
		c.fail("an activity is created without a mapper factory")
		return
	}
	m, err := mf.NewMapper(map[string]interface{}{"x": "=1 + 1", "y": "z"})
	if err != nil {
		c.fail("the mapper factory given to an activity makes no mapper: %v", err)
		return
	}
	if v, err := m.Apply(nil); err != nil || normJSON(v) != `{"x":2,"y":"z"}` {
		c.fail("the mapper made for an activity yields %v, %v", v, err)
	}
}

func (c *c26) cleanHook(a *vact.Activity) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.byObj[a]
	if t == nil {
		c.fail("an activity of no task is cleaned up")
		return nil
	}
	t.cleaned++
	if t.bad {
		return errors.New("cleanup fails")
	}
	return nil
}

// check compares the number of cleanups of all tasks
func (c *c26) check(when string, unloaded map[int]bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range c.ts {
		want := 0
		if unloaded[t.flow] && !t.noClean && !t.t.Shared {
			want = 1
		}
		if t.cleaned != want {
			c.fail("%s: the activity of %v was cleaned up %d times, not %d", when, t, t.cleaned, want)
		}
	}
	if c.one > 0 {
		c.fail("%s: an activity that all flows share was cleaned up", when)
	}
	n := 0
	for _, t := range c.ts {
		if !t.t.Shared {
			n++
		}
	}
	if len(c.created) != n {
		c.fail("%s: %d activities were created for %d tasks", when, len(c.created), n)
	}
}

func runC26(cx *Cx) *Outcome {
	s := cx.S
	o := &Outcome{Feat: map[string]int{}}
	c := &c26{o: o, isNew: map[*vact.Activity]bool{}, byObj: map[*vact.Activity]*lifeTask{}}
	q := &c22{}
	q.props(s)
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 3, 3
	p.Legacy = 0
	p.Sub, p.Loop, p.Retry, p.EH, p.ErrLink = 15, 12, 8, 60, 15
	p.Fail, p.Maps, p.Chain = 20, 1, 60
	c.cs = genCase(s, p)
	o.Case = map[string]interface{}{"flows": c.cs, "ops": &c.ops}
	for fi, f := range c.cs.Flows {
		for k, g := range []*Graph{f.G, f.EH} {
			if g == nil {
				continue
			}
			for _, t := range g.Tasks {
				if t.Sub > 0 {
					continue
				}
				lt := &lifeTask{flow: fi, eh: k == 1, t: t, want: map[string]interface{}{}, bad: s.P(25)}
				switch s.N(6) {
				case 0:
					t.Fixed, lt.noClean = true, true
				case 1:
					t.Shared = true
				case 2:
					t.Bypass = true
				}
				raw, vals := genSettings(s, 0, 35)
				if len(raw) > 0 {
					t.Cfg = raw
				}
				for n, v := range vals {
					lt.want[n], _ = v.want(q.p)
				}
				c.ts = append(c.ts, lt)
			}
		}
	}
	quiesce()
	vact.NewHook, vact.CleanHook = c.newHook, c.cleanHook
	vone.CleanHook = func() error { c.mu.Lock(); c.one++; c.mu.Unlock(); return nil }
	defer func() { vact.NewHook, vact.CleanHook, vone.CleanHook = nil, nil, nil }()
	l, err := load(c.cs)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	c.op("load")
	var res []*resource.Resource
	var defs []*definition.Definition
	for _, u := range l.uris {
		r := ictx.resources[u[6:]]
		if r == nil {
			panic("harness: no resource " + u)
		}
		d, ok := r.Object().(*definition.Definition)
		if !ok {
			panic("harness: resource is no flow")
		}
		res = append(res, r)
		defs = append(defs, d)
	}
	for _, t := range c.ts {
		var dt *definition.Task
		ts := defs[t.flow].Tasks()
		if t.eh {
			ts = defs[t.flow].GetErrorHandler().Tasks()
		}
		for _, x := range ts {
			if x.ID() == t.t.ID {
				dt = x
			}
		}
		switch a := dt.ActivityConfig().Activity.(type) {
		case *vact.Activity:
			t.obj = a
		case *vfix.Activity:
			t.obj = a.A
		case *vbyp.Activity:
			t.obj = a.A
		case *vone.Activity:
			t.obj = a.A
		}
		if t.obj == nil {
			c.fail("%v has an activity of type %T", t, dt.ActivityConfig().Activity)
			return o
		}
		got := map[string]interface{}{}
		for _, n := range cfgNames {
			if v, ok := dt.ActivityConfig().GetSetting(n); ok {
				got[n] = v
			}
		}
		if !eqSettings(got, t.want) {
			c.fail("the settings of %v are %s, not %s", t, showS(got), showS(t.want))
		}
		if t.t.Shared {
			if t.obj != vone.One.A {
				c.fail("%v has an activity of its own", t)
			}
			continue
		}
		if !c.isNew[t.obj] {
			c.fail("the activity of %v was not created for it", t)
		}
		if b := c.byObj[t.obj]; b != nil {
			c.fail("%v and %v share an activity", t, b)
		}
		c.byObj[t.obj] = t
		if !eqSettings(t.obj.Settings, t.want) {
			c.fail("the activity of %v is created with %s, not %s", t, showS(t.obj.Settings), showS(t.want))
		}
		f := c.cs.Flows[t.flow]
		if t.obj.Name != t.t.Name || t.obj.Host != f.Name {
			c.fail("the activity of %v (named %q) of flow %q is created as %q of %q", t, t.t.Name, f.Name, t.obj.Name, t.obj.Host)
		}
	}
	unloaded := map[int]bool{}
	c.check("after loading", unloaded)
	for i, n := 0, s.N(3); i < n && o.Viol == ""; i++ {
		c.op("run")
		r := newRun(c.cs, &RunOpts{})
		r.onObj = func(a *vact.Activity, ti *TI, ctx activity.Context) {
			c.mu.Lock()
			defer c.mu.Unlock()
			o.Feat["executions-checked"]++
			if ti.t.Shared {
				if a != vone.One.A {
					c.fail("%s executes another activity", ti.t.ID)
				}
				return
			}
			if t := c.byObj[a]; t == nil || t.t != ti.t {
				c.fail("%s executes the activity of %v", ti.t.ID, t)
			}
		}
		err := l.execRun(r, &RunOpts{})
		endRun(r.M.pid)
		r.M.mu.Lock()
		o.Feat["executions"] += r.M.execs
		if err == errTimeout {
			o.Hang = true
		}
		if r.M.viol != "" && o.Viol == "" {
			o.Viol, o.Hist = r.M.viol, append([]string{}, r.M.hist...)
		}
		r.M.mu.Unlock()
		c.check(fmt.Sprintf("after run %d", i+1), unloaded)
	}
	quiesce()
	// unloading, of all flows at once or of some before the others
	for len(unloaded) < len(defs) && o.Viol == "" {
		m := map[string]*resource.Resource{}
		all := !s.P(70)
		for i, u := range l.uris {
			if !unloaded[i] && (all || s.P(60)) {
				m[u[6:]] = res[i]
				unloaded[i] = true
				c.op("unload flow %d", i)
				o.Feat["unloaded"]++
			}
		}
		if len(m) == 0 {
			continue
		}
		if !within(func() { resource.NewManager(m).CleanupResources() }) {
			o.Hang = true
			c.fail("hang: unloading does not end")
			break
		}
		c.check("after unloading", unloaded)
	}
	takeOrphans()
	kinds := map[string]bool{}
	for _, t := range c.ts {
		if t.cleaned > 0 {
			o.Feat["cleaned"]++
		}
		if t.bad && t.cleaned > 0 {
			o.Feat["failing-cleanup"]++
		}
		if t.eh && t.cleaned > 0 {
			o.Feat["cleaned-in-handler"]++
		}
		kinds[fmt.Sprint(t.eh, t.t.Shared, t.noClean)] = true
	}
	o.Non = len(kinds) > 1 && o.Feat["cleaned"] > 0
	return o
}

func init() {
	register(&Prop{ID: "C26", Quick: 60000, Thorough: 700000, Run: runC26,
		Variants: []Variant{seqVar, raceSeqVar},
		Rule:     "Flows whose tasks (of main flow, subflows and handlers) have activities of their own with settings, activities that need no cleanup, or one activity they all share, which are loaded, run up to twice and unloaded one by one or at once while some cleanups fail; non-trivial: at least two kinds of tasks and an activity that is cleaned up"})
}
