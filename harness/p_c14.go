package main

// C14: concurrent execution of tasks

func genC14(s *Src) *Case {
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 8, 2, 5
	p.Chain = s.N(2) * 30
	p.Expr, p.Other, p.Label, p.ErrLink = 25, 10, 10, 10
	p.Sub, p.Loop, p.Retry, p.Fail = 15, 12, 8, 25
	p.MaxIter, p.EH, p.Maps = 3, 40, 2
	p.MapFail, p.Risky, p.Return, p.CondFail = 20, 20, 4, 3
	p.Terminals = s.N(2)
	return genCase(s, p)
}

func runC14(cx *Cx) *Outcome {
	s := cx.S
	cs := genC14(s)
	ro := &RunOpts{Conc: true}
	if s.P(80) {
		ro.Choices = s.N
	} else {
		ro.Sleep = true
	}
	o, r := runCase(cx, cs, ro)
	if r != nil && r.gate != nil {
		if r.gate.maxW > 1 {
			o.Feat["parallel-activities"]++
		}
		o.Feat["simultaneous-ends"] += r.gate.sim
		o.Non = r.gate.maxW > 1
	}
	if o.Viol == "" {
		takeOrphans()
	}
	return o
}

func init() {
	register(&Prop{ID: "C14", Quick: 60000, Thorough: 900000, Run: runC14, Variants: []Variant{concVar, raceConcVar, {Name: "concurrent-2", Env: concVar.Env}, debugConcVar},
		Rule: "Flows with parallel branches, joins, skips, loops, retries, subflows, error links and handlers, at most one failure or return that ends a flow; activities are held until everything that can run is running and then end in a generated order, one or several at once; non-trivial: at least two activities were being executed at the same time"})
}
