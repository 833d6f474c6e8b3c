package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/data/metadata"
	_ "github.com/project-flogo/flow/ondemand"
)

// C17: flows run on demand. A generated flow is run as a resource and from a
// package whose input mappings denote the same inputs, each run with its own
// model. Packages that the loader of resources rejects, and mappings that
// cannot be evaluated, have to give an error.

const onDemandRef = "github.com/project-flogo/flow/ondemand"

var onDemand action.AsyncAction

func initOnDemand() {
	f := action.GetFactory(onDemandRef)
	if err := f.Initialize(ictx); err != nil {
		panic("harness: " + err.Error())
	}
	a, err := f.New(&action.Config{})
	if err != nil {
		panic("harness: " + err.Error())
	}
	onDemand = a.(action.AsyncAction)
}

// odPkg is a generated package with the inputs of the trigger
type odPkg struct {
	doc    J // of the flow
	maps   J // input mappings, nil: none
	trig   J // what the trigger provides
	pidMap bool
	shape  int
}

func (p *odPkg) raw(pid string) json.RawMessage {
	d := p.doc
	if !p.pidMap {
		// the run is told by a default of the flow
		d = clone(d).(map[string]interface{})
		in := d["metadata"].(map[string]interface{})["input"].([]interface{})
		for _, x := range in {
			if m := x.(map[string]interface{}); m["name"] == "pid" {
				m["value"] = pid
			}
		}
	}
	pk := J{"flow": d}
	if p.maps != nil {
		pk["inputs"] = p.maps
	}
	if p.shape == 1 {
		pk["outputs"] = J{"x": "=$.y"}
	}
	b, err := json.Marshal(pk)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return b
}

// odAct is the on-demand action run with the package
type odAct struct {
	p    *odPkg
	expl bool
	ann  []interface{}
	mu   sync.Mutex
}

type odHandler struct {
	a *odAct
	h action.ResultHandler
	n int
}

func (h *odHandler) HandleResult(d map[string]interface{}, err error) {
	h.a.mu.Lock()
	h.n++
	first := h.n == 1
	id, ok := d["id"]
	if first && ok && err == nil && len(d) == 1 && !h.a.expl {
		// the id of the instance is announced first
		h.a.ann = append(h.a.ann, id)
		h.a.mu.Unlock()
		return
	}
	h.a.mu.Unlock()
	h.h.HandleResult(d, err)
}

func (h *odHandler) Done() { h.h.Done() }

func (a *odAct) Metadata() *action.Metadata       { return nil }
func (a *odAct) IOMetadata() *metadata.IOMetadata { return nil }

func (a *odAct) Run(ctx context.Context, in map[string]interface{}, h action.ResultHandler) error {
	pid := in["pid"].(string)
	trig := J{}
	for k, v := range a.p.trig {
		trig[k] = v
	}
	if pl, ok := trig["payload"].(map[string]interface{}); ok {
		pl = copyMap(pl)
		pl["pid"] = pid
		trig["payload"] = pl
	}
	trig["flowPackage"] = a.p.raw(pid)
	return onDemand.Run(ctx, trig, &odHandler{a: a, h: h})
}

// genPkg generates a package for the flow, started with the inputs of the case
func genPkg(s *Src, cs *Case, l *Loaded) *odPkg {
	uri := func(i int) string { return l.uris[i] }
	p := &odPkg{doc: cs.Flows[0].Doc(uri), pidMap: s.P(70), shape: s.N(4)}
	payload := J{}
	nest := J{}
	p.trig = J{"payload": payload, "nest": nest, "other": s.N(9)}
	for _, prm := range cs.Flows[0].In {
		v, given := cs.In[prm.Name]
		if !given {
			switch s.N(4) {
			case 0:
				p.set(prm.Name, nil)
			case 1:
				// what is not mapped does not reach the flow
				p.trig[prm.Name] = "not mapped"
			}
			continue
		}
		p.set(prm.Name, p.mapTo(s, prm.Name, v, 2))
	}
	if p.pidMap {
		p.set("pid", "=$.payload.pid")
	}
	return p
}

func (p *odPkg) set(n string, v interface{}) {
	if p.maps == nil {
		p.maps = J{}
	}
	p.maps[n] = v
}

// mapTo gives a mapping that denotes the value
func (p *odPkg) mapTo(s *Src, name string, v interface{}, depth int) interface{} {
	str, isStr := v.(string)
	lit := !(isStr && strings.HasPrefix(str, "=")) && !hasExprIn(v)
	payload, nest := p.trig["payload"].(J), p.trig["nest"].(J)
	switch k := s.N(8); {
	case k < 2 && lit:
		return v
	case k == 2:
		p.trig["t_"+name] = v
		return "=$.t_" + name
	case k == 3:
		nest[name] = J{"in": []interface{}{"skip", v}}
		return "=$.nest." + name + ".in[1]"
	case k == 4:
		payload[name] = v
		return `=$.payload["` + name + `"]`
	case k == 5 && isStr:
		payload[name] = v
		return "=$.other >= 0 ? $.payload." + name + ` : "n"`
	case k == 6 && depth > 0:
		m, ok := v.(map[string]interface{})
		if !ok || len(m) == 0 {
			break
		}
		r := J{}
		for i, key := range sortedKeys(m) {
			r[key] = p.mapTo(s, fmt.Sprintf("%s_%d", name, i), m[key], 0)
		}
		return J{"mapping": r}
	}
	payload[name] = v
	return "=$.payload." + name
}

// hasExprIn: the value contains strings that look like expressions
func hasExprIn(v interface{}) bool {
	switch t := v.(type) {
	case string:
		return strings.HasPrefix(t, "=")
	case map[string]interface{}:
		for _, x := range t {
			if hasExprIn(x) {
				return true
			}
		}
	case []interface{}:
		for _, x := range t {
			if hasExprIn(x) {
				return true
			}
		}
	}
	return false
}

func runC17(cx *Cx) *Outcome {
	s := cx.S
	conc := false
	for _, e := range cx.Var.Env {
		conc = conc || e == conEnv
	}
	mode := s.Pick(66, 10, 8, 10, 6)
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 3
	p.Sub, p.Loop, p.Retry = 20, 15, 8
	p.Fail, p.Panic, p.ErrLink, p.EH = 12, 20, 20, 30
	p.MapFail, p.Risky, p.Maps = 12, 12, 4
	p.Return, p.SetOut, p.EmptyFlow, p.SetFail, p.CondFail = 8, 25, 4, 4, 4
	p.Reply = 6
	if conc {
		p.Terminals = s.N(2)
		p.SetFail, p.SetOut, p.Ctx, p.Panic, p.EmptyFlow, p.Reply = 0, 0, 0, 0, 0, 0
	}
	if mode > 0 {
		p.MaxFlows, p.MaxTasks = 1, 3
	}
	cs := genCase(s, p)
	o := &Outcome{Feat: map[string]int{}}
	l, err := load(cs)
	defer l.unload()
	if err != nil {
		o.Case, o.Viol = cs, "a valid flow is rejected: "+err.Error()
		return o
	}
	pk := genPkg(s, cs, l)
	expl := s.P(30)
	if expl {
		pk.doc["explicitReply"] = true
	}
	if mode > 0 {
		o.Feat["invalid-packages"]++
		refuse(cx, o, pk, mode)
		return o
	}
	o.Case = J{"flows": cs, "package": string(pk.raw("PID")), "trigger": pk.trig}
	n := 1 + s.Pick(4, 2, 1)
	par := n > 1 && s.P(60)
	var mu sync.Mutex
	take := func(r *Run, what string, err error) bool {
		mu.Lock()
		defer mu.Unlock()
		m := r.M
		m.mu.Lock()
		defer m.mu.Unlock()
		if err == errTimeout {
			o.Hang = true
		}
		for k, v := range m.feat {
			o.Feat[k] += v
		}
		o.Feat["executions"] += m.execs
		if m.viol != "" && o.Viol == "" {
			o.Viol, o.Hist = what+m.viol, append([]string{}, m.hist...)
		}
		return m.viol == ""
	}
	// as a resource
	ro := &RunOpts{Conc: conc}
	r, err := l.exec(ro)
	if !take(r, "as a resource: ", err) {
		return o
	}
	one := func() {
		a := &odAct{p: pk, expl: expl}
		lo := &Loaded{cs: cs, uris: l.uris, act: a}
		ro := &RunOpts{Conc: conc}
		or := newRun(cs, ro)
		defer endRun(or.M.pid)
		err := lo.execRun(or, ro)
		m := or.M
		m.mu.Lock()
		for _, id := range a.ann {
			if str, ok := id.(string); !ok || str == "" {
				m.fail("the announced id is %T", id)
			} else if m.root.id.Bound && m.root.id.Val != str {
				m.fail("the announced id is %q, the id of the instance is %v", str, m.root.id.Val)
			}
			m.feat["announced"]++
		}
		m.mu.Unlock()
		take(or, "on demand: ", err)
	}
	if par {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); one() }()
		}
		wg.Wait()
		o.Feat["parallel"]++
	} else {
		for i := 0; i < n && o.Viol == ""; i++ {
			one()
		}
	}
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !conc {
		o.Viol = "after the runs had ended: " + orph[0]
	}
	o.Non = o.Feat["executions"] >= 2*(n+1)
	return o
}

// refuse runs packages that cannot be run
func refuse(cx *Cx, o *Outcome, pk *odPkg, mode int) {
	s := cx.S
	trig := J{}
	for k, v := range pk.trig {
		trig[k] = v
	}
	payload := copyMap(trig["payload"].(J))
	trig["payload"] = payload
	payload["pid"] = "refused-1"
	what := ""
	switch mode {
	case 1: // input mappings that cannot be evaluated
		bad := s.Str("=$.nosuch", "=$.payload.no.such", "=$.payload.pid.x", "=$.payload[", "=1 +", "=$activity[a].x", "=nofunc(1)", "=$.other.x.y")
		switch s.N(4) {
		case 0:
			pk.set("extra", J{"mapping": J{"a": bad}})
		default:
			pk.set("extra", bad)
		}
		trig["flowPackage"] = pk.raw("refused-1")
		what = "whose input mappings cannot be evaluated"
	case 2: // not a package
		what = "that is not one"
		switch s.N(8) {
		case 0:
			what = "that is missing"
		case 1:
			trig["flowPackage"] = nil
		case 2:
			trig["flowPackage"] = json.RawMessage(s.Str("", "null", "{}", "[]", "12", `"flow"`, `{"flow":null}`, `{"flow":12}`, `{"flow":[]}`, `{"flow":""}`, `{"inputs":[],"flow":{}}`, `{"inputs":{"a":1}}`, `{"flow"`, "  "))
		case 3:
			trig["flowPackage"] = s.N(9)
		case 4:
			trig["flowPackage"] = J{"flow": nil}
		case 5:
			trig["flowPackage"] = &struct{}{}
		case 6:
			trig["flowPackage"] = json.RawMessage(nil)
		case 7:
			trig["flowPackage"] = []interface{}{pk.doc}
		}
	case 3: // flows that the loader rejects
		what = "with an invalid flow"
		var doc interface{} = clone(pk.doc)
		for i := 0; i < 6; i++ {
			doc = mutate(s, doc, 0)
			b, _ := json.Marshal(doc)
			if _, err := loadDoc(b); err != nil {
				break
			}
		}
		b, _ := json.Marshal(doc)
		if _, err := loadDoc(b); err == nil {
			o.Feat["mutant-accepted"]++
			o.Case = J{}
			return
		}
		if m, ok := doc.(map[string]interface{}); ok {
			pk.doc, pk.pidMap = m, true
			pk.set("pid", "refused-1")
			trig["flowPackage"] = pk.raw("refused-1")
		} else {
			trig["flowPackage"] = json.RawMessage(`{"flow":` + string(b) + `}`)
		}
	case 4: // damaged text
		what = "whose text is damaged"
		b := []byte(pk.raw("refused-1"))
		switch s.N(3) {
		case 0:
			b = b[:s.N(len(b))]
		case 1:
			b[s.N(len(b))] = byte(s.N(256))
		case 2:
			i := s.N(len(b))
			b = append(append(append([]byte{}, b[:i]...), "\x00}{]["[s.N(5)]), b[i:]...)
		}
		var x struct {
			Inputs  map[string]interface{} `json:"inputs"`
			Outputs map[string]interface{} `json:"outputs"`
			Flow    json.RawMessage        `json:"flow"`
		}
		if json.Unmarshal(b, &x) == nil {
			if _, err := loadDoc(x.Flow); err == nil {
				o.Feat["mutant-accepted"]++
				o.Case = J{}
				return
			}
		}
		trig["flowPackage"] = json.RawMessage(b)
	}
	show := fmt.Sprintf("%T %v", trig["flowPackage"], trig["flowPackage"])
	if b, ok := trig["flowPackage"].(json.RawMessage); ok {
		show = string(b)
	}
	o.Case = J{"package": show, "payload": payload, "trigger": pk.trig}
	o.Non = true
	c := newCollect()
	var err error
	if p := recovered(func() { err = onDemand.Run(bg, trig, c) }); p != "" {
		o.Viol = fmt.Sprintf("a package %s makes Run panic: %s", what, p)
		return
	}
	if err == nil {
		// started nevertheless, or refused through the handler
		if !c.wait() {
			o.Viol, o.Hang = fmt.Sprintf("a package %s is not refused, and the run does not end", what), true
			return
		}
		c.mu.Lock()
		if len(c.res) != 1 || c.res[0].Err == nil || c.dones != 1 {
			o.Viol = fmt.Sprintf("a package %s is not refused: %d outcomes, %v", what, len(c.res), c.res)
		}
		c.mu.Unlock()
	} else {
		c.mu.Lock()
		if c.dones > 0 {
			o.Viol = fmt.Sprintf("a package %s is refused with an error and completion is signalled", what)
		}
		c.mu.Unlock()
	}
	for _, x := range takeOrphans() {
		if o.Viol == "" && strings.Contains(x, "refused-1") {
			o.Viol = fmt.Sprintf("a package %s is not refused before something is executed: %s", what, x)
		}
	}
	o.Feat["refused"]++
}

func initC17(v *Variant) {
	initEngine(nil, nil)
	initOnDemand()
}

func init() {
	register(&Prop{ID: "C17", Quick: 40000, Thorough: 500000, Run: runC17, Init: initC17,
		Variants: []Variant{seqVar, concVar, raceSeqVar, raceConcVar},
		Rule:     "Generated flows run as a resource and on demand, from packages whose mappings (literals, trigger data, nested, object mappings, absent) denote the same inputs, one after another and at once, and packages that are missing, damaged, invalid or have mappings that fail; non-trivial: at least two executions per run, or a package that has to be refused"})
}
