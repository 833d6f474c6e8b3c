package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/project-flogo/flow/util"
)

// C16: the step limit

const defaultLimit = 10000000

func limitVar(name, v string, env ...string) Variant {
	return Variant{Name: name, Env: append([]string{"FLOGO_MAX_STEP_COUNT=" + v}, env...)}
}

var conEnv = "FLOGO_FLOW_CONCURRENT_TASK_EXECUTION=true"

// limitOf is the limit that the variant configures
func limitOf(v *Variant) int {
	for _, e := range v.Env {
		if strings.HasPrefix(e, "FLOGO_MAX_STEP_COUNT=") {
			if n, err := strconv.Atoi(e[len("FLOGO_MAX_STEP_COUNT="):]); err == nil {
				return n
			}
		}
	}
	return defaultLimit
}

// genC16 generates a flow that takes about limit steps, or that never ends
func genC16(s *Src, limit int, conc bool) (*Case, int, bool, bool) {
	p := baseProf()
	p.Terminals = 0
	p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 3
	p.Sub, p.Loop, p.Retry, p.Reply = 25, 25, 8, 4
	p.Risky, p.Maps, p.EH = 0, 1, 15
	if conc {
		p.Reply = 0 // made by what runs on when the run is stopped
	}
	p.MaxIter = 5
	cs := genCase(s, p)
	max := limit + 60
	if limit == defaultLimit {
		max = 40000
	}
	kind := s.N(6) // 0-3 loop about as long as the limit, 4 endless loop, 5 endless recursion
	f := cs.Flows[s.N(len(cs.Flows))]
	pad := &Task{ID: "PAD"}
	if s.P(40) {
		from := f.G.Tasks[s.N(len(f.G.Tasks))]
		f.G.Links = append(f.G.Links, &Link{From: from.ID, To: pad.ID, Type: "dep"})
	}
	f.G.Tasks = append(f.G.Tasks, pad)
	if !conc && kind < 4 && f == cs.Flows[0] && f.EH == nil && s.P(30) {
		// the run fails
		f.G.Tasks = append(f.G.Tasks, &Task{ID: "END", Maps: []*Mapping{{Name: "pid", E: FlowRef("pid")}, {Name: "pt", Lit: "END", Want: "END"}},
			Script: []Beh{{Kind: "err", Tok: "tend"}}})
		f.G.Links = append(f.G.Links, &Link{From: pad.ID, To: "END", Type: "dep"})
	}
	act := func() {
		pad.Maps = []*Mapping{{Name: "pid", E: FlowRef("pid")}, {Name: "pt", Lit: pad.ID, Want: pad.ID}}
		pad.Outs = []OutSpec{{Name: "i", Kind: "num"}}
	}
	if limit == defaultLimit && kind >= 4 {
		kind = 0
	}
	switch kind {
	case 4:
		act()
		pad.Loop = &Loop{Kind: "dowhile", Cond: [](func() *Expr){
			func() *Expr { return Lit(true) },
			func() *Expr { return Op(">=", ActRef("PAD", "i"), Lit(0)) },
			func() *Expr { return Op(">=", IterRef("index"), Lit(0)) },
		}[s.N(3)](), Acc: s.P(15), Form: s.N(3)}
	case 5:
		for i := range cs.Flows {
			if cs.Flows[i] == f {
				pad.Sub = i + 1
			}
		}
		pad.Maps = []*Mapping{{Name: "pid", E: probeExpr("S", pad.ID, nil)}}
		f.G.Links = nil
		if len(f.G.Tasks) > 3 {
			f.G.Tasks = f.G.Tasks[len(f.G.Tasks)-3:]
		}
		for _, t := range f.G.Tasks {
			if t != pad {
				// references to what is gone
				t.Maps = []*Mapping{{Name: "pid", E: FlowRef("pid")}, {Name: "pt", Lit: t.ID, Want: t.ID}}
				t.Loop, t.Sub, t.Retry, t.Script, t.SetOK = nil, 0, nil, nil, nil
			}
		}
	default:
		act()
		set := func(n int) {}
		if s.P(50) {
			pad.Loop = &Loop{Kind: "iter", OnLit: 1, Acc: s.P(30), Form: s.N(4)}
			set = func(n int) { pad.Loop.OnLit = n }
		} else {
			pad.Loop = &Loop{Kind: "dowhile", Acc: s.P(30), Form: s.N(3)}
			set = func(n int) { pad.Loop.Cond = Op("<", IterRef("index"), Lit(n-1)) }
		}
		steps := func(n int) int {
			set(n)
			m, _ := simulate(cs, max)
			return m.steps
		}
		want := limit + s.N(7) - 3
		switch s.N(4) {
		case 0:
			want = s.N(limit%100000 + 40)
		}
		if limit == defaultLimit {
			want = s.N(60)
			if s.N(300) == 299 {
				want = 10000 + s.N(20000)
			}
		}
		a, b := steps(1), steps(2)
		n := 1
		if b > a && want > a {
			n = 1 + (want-a)/(b-a)
		}
		set(n)
	}
	m, ended := simulate(cs, max)
	if m.viol != "" {
		panic("harness: simulation: " + m.viol)
	}
	return cs, m.steps, ended, m.root.status == csFailed
}

func runC16(cx *Cx) *Outcome {
	limit := limitOf(cx.Var)
	conc := len(cx.Var.Env) > 1
	cs, steps, ended, fails := genC16(cx.S, limit, conc)
	o := &Outcome{Case: cs}
	if got := util.GetMaxStepCount(); got != limit {
		o.Viol = fmt.Sprintf("the step limit is %d, want %d (%v)", got, limit, cx.Var.Env)
		return o
	}
	l, err := load(cs)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o
	}
	if cx.S.P(25) {
		// on demand
		pk := genPkg(cx.S, cs, l)
		a := &odAct{p: pk, expl: cx.S.P(30)}
		if a.expl {
			pk.doc["explicitReply"] = true
		}
		l.act = a
	}
	r, err := l.exec(&RunOpts{NoFinish: true, Conc: conc})
	if err == errTimeout {
		o.Hang = true
	}
	m := r.M
	if m.viol == "" && err == nil {
		r.mu.Lock()
		rep := append([]map[string]interface{}{}, r.replies...)
		r.mu.Unlock()
		m.mu.Lock()
		stopped := 0
		for _, x := range m.res {
			if x.Err != nil {
				stopped++
			}
		}
		begun := 0
		for _, f := range m.facts {
			if f.Kind == "begin" {
				begun++
			}
		}
		begun -= m.feat["retry"]
		nres := len(m.res)
		m.mu.Unlock()
		natural := ended && steps < limit
		if ended && steps == limit && stopped == 0 {
			natural = true
		}
		over := !ended || steps > limit
		m.mu.Lock()
		failed := m.root.status == csFailed && (nres == 0 || m.res[nres-1].Err == nil || strings.Contains(m.res[nres-1].Err.Error(), m.root.ev.Tok))
		if failed {
			m.feat["failed-by-itself"]++
			if m.steps >= limit-2 {
				m.feat["failed-at-limit"]++
			}
		}
		m.mu.Unlock()
		switch {
		case failed:
			m.Finish(rep)
		case fails:
			// how many steps it takes until it fails is not determined
			m.mu.Lock()
			if nres != len(rep)+1 || m.res[nres-1].Err == nil || !hasNumber(m.res[nres-1].Err.Error(), limit) || m.steps < limit-2 || m.done != 1 {
				m.fail("a run that fails after about %d steps, with the limit %d, is reported as %s after %d steps", steps, limit, m.outcome(), m.steps)
			}
			m.mu.Unlock()
		case natural:
			m.Finish(rep)
			m.mu.Lock()
			if m.viol == "" && !conc && m.steps != steps {
				m.fail("model: %d steps, the simulation took %d", m.steps, steps)
			}
			if m.viol != "" {
				m.viol = fmt.Sprintf("with limit %d, a run of %d steps: %s", limit, steps, m.viol)
			}
			m.feat["below-limit"]++
			if steps >= limit-2 {
				m.feat["just-below-limit"]++
			}
			m.mu.Unlock()
		default:
			m.mu.Lock()
			what := fmt.Sprintf("a run of %d steps", steps)
			if !ended {
				what = "an endless run"
			}
			if stopped == 0 {
				m.fail("%s is not stopped by the limit %d: %s", what, limit, m.outcome())
			} else if last := m.res[nres-1]; last.Err == nil || stopped != 1 || nres != len(rep)+1 {
				m.fail("%s is stopped by the limit %d, but the reported outcomes are %s", what, limit, m.outcome())
			} else if !hasNumber(last.Err.Error(), limit) {
				m.fail("%s is stopped by the limit %d with an error that does not name it: %v", what, limit, last.Err)
			} else if m.done != 1 {
				m.fail("%s is stopped by the limit %d, completion is signalled %d times", what, limit, m.done)
			} else if begun > limit && limit >= 0 {
				m.fail("%s executes %d activities and subflows before it is stopped by the limit %d", what, begun, limit)
			}
			m.feat["stopped"]++
			if over && ended && steps <= limit+2 {
				m.feat["just-above-limit"]++
			}
			if !ended {
				m.feat["endless"]++
			}
			m.mu.Unlock()
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	o.Viol = m.viol
	o.Hist = append([]string{}, m.hist...)
	o.Feat = merge(nil, m.feat)
	o.Feat["executions"] += m.execs
	o.Non = steps >= limit-3 || !ended || limit == defaultLimit
	takeOrphans()
	return o
}

// hasNumber tells whether the text contains the number as a word
func hasNumber(s string, n int) bool {
	t := strconv.Itoa(n)
	isD := func(i int) bool { return i >= 0 && i < len(s) && s[i] >= '0' && s[i] <= '9' }
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t && !isD(i-1) && !isD(i+len(t)) {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{ID: "C16", Quick: 40000, Thorough: 600000, Run: runC16, Init: initC17,
		Variants: []Variant{
			limitVar("limit-12", "12"), limitVar("limit-5", "5"), limitVar("limit-30", "30"), limitVar("limit-80", "80"),
			limitVar("limit-200", "200"), limitVar("limit-7-concurrent", "7", conEnv), limitVar("limit-40-concurrent", "40", conEnv),
			limitVar("malformed", "abc"), limitVar("limit-1", "1"), limitVar("fraction", "1e3"),
			{Name: "absent", Env: []string{"-FLOGO_MAX_STEP_COUNT"}},
		},
		Rule: "Flows with loops, subflows and retries, one loop of which is as long as needed to take the limit -3..+3 steps, or which never end (do-while, recursion), under limits 1..200, both execution modes, as resources and on demand, and absent or malformed limits; non-trivial: at least limit-3 steps, or no limit configured",
	})
}
