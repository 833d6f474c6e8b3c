package main

// The checks that are decided by the reference model alone.

func merge(a, b map[string]int) map[string]int {
	if a == nil {
		a = map[string]int{}
	}
	for k, v := range b {
		a[k] += v
	}
	return a
}

// runCase runs the case once and lets the model judge
func runCase(cx *Cx, cs *Case, ro *RunOpts) (*Outcome, *Run) {
	o := &Outcome{Case: cs}
	l, err := load(cs)
	defer l.unload()
	if err != nil {
		o.Viol = "a valid flow is rejected: " + err.Error()
		return o, nil
	}
	r, err := l.exec(ro)
	if err == errTimeout {
		o.Hang = true
	}
	m := r.M
	m.mu.Lock()
	defer m.mu.Unlock()
	o.Viol = m.viol
	o.Hist = append([]string{}, m.hist...)
	o.Feat = merge(nil, m.feat)
	o.Feat["executions"] += m.execs
	if orph := takeOrphans(); len(orph) > 0 && o.Viol == "" && !ro.Conc {
		o.Viol = "after the run had ended: " + orph[0]
	}
	return o, r
}

func modelProp(id string, quick int, rule string, prof func(s *Src) Prof, non func(f map[string]int) bool) *Prop {
	return &Prop{ID: id, Quick: quick, Thorough: quick * 12, Variants: []Variant{seqVar, seqVar, seqVar, seqVar, seqVar, seqVar, debugVar, seqVar}, Rule: rule,
		Run: func(cx *Cx) *Outcome {
			cs := genCase(cx.S, prof(cx.S))
			o, _ := runCase(cx, cs, &RunOpts{})
			o.Non = non(o.Feat)
			return o
		}}
}

func init() {
	register(modelProp("C01", 240000,
		"Flows of 1-12 tasks with random links of all types, joins and parallel links, errors and handlers; non-trivial: at least three executions and a task that was skipped, a link that was not followed or a join",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks = 12
			p.Expr, p.Other, p.Label, p.ErrLink = 30, 15, 10, 15
			p.Fail = 12
			p.Panic = 20
			p.Chain = s.N(3) * 35
			return p
		},
		func(f map[string]int) bool {
			return f["executions"] >= 3 && (f["skipped"] > 0 || f["link-not-followed"] > 0)
		}))
	register(modelProp("C02", 200000,
		"Flows and subflows with failing activities (errors, panics), mappings, settings, conditions, loops and retries, error links and handlers that fail too; non-trivial: something failed and the run reported one outcome",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 3, 4
			p.Sub = 20
			p.ErrLink, p.EH = 20, 50
			p.Fail, p.Panic, p.Retry, p.Loop = 20, 30, 10, 12
			p.MapFail, p.Risky, p.CondFail, p.SetFail = 25, 25, 8, 8
			p.Return, p.EmptyFlow, p.OnProbe = 6, 4, 5
			p.RetErr = 15
			return p
		},
		func(f map[string]int) bool {
			return f["activity-error"]+f["plain-error"]+f["panic"]+f["mapping-failure"]+f["settings-failure"]+f["condition-failure"] > 0
		}))
	register(modelProp("C03", 200000,
		"Flows whose activities map literals of other types, flow inputs and defaults, outputs of activities, errors, context and loop values, nested objects, and references that may not exist; non-trivial: at least two executions with their inputs compared",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 2, 3
			p.Sub, p.Loop, p.Retry = 10, 10, 6
			p.Maps = 6
			p.Risky, p.MapFail = 25, 20
			p.Ctx = 20
			p.Fail, p.SetOut, p.SetOK = 12, 35, 10
			p.ErrLink = 20
			return p
		},
		func(f map[string]int) bool { return f["executions"] >= 2 }))
	register(modelProp("C04", 200000,
		"Flows with iterators over all kinds of collections and do-while loops, with and without accumulation, over activities and subflows, with failures and retries inside; non-trivial: a loop executed more than once, or not at all",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 2, 3
			p.Loop, p.Sub, p.Async = 60, 12, 20
			p.MaxIter = 3 + s.N(3)*4
			p.Fail, p.Retry, p.CondFail, p.OnProbe = 8, 8, 4, 6
			p.Maps = 3
			p.ErrLink, p.EH = 15, 30
			return p
		},
		func(f map[string]int) bool {
			return f["loop-repeat"]+f["iterations"]+f["empty-loop"] > 0
		}))
	register(modelProp("C05", 160000,
		"Flows whose activities have retry settings (literal and computed counts) and fail with random sequences of retriable and other errors, also inside loops and subflows; non-trivial: an execution was retried or an error was not retried",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 2, 3
			p.Retry, p.Fail, p.Panic = 55, 20, 15
			p.Async = 30
			p.Loop, p.Sub = 25, 12
			p.ErrLink, p.EH, p.Risky = 25, 40, 15
			return p
		},
		func(f map[string]int) bool {
			return f["retry"]+f["retries-exhausted"] > 0 || f["activity-error"] > 0
		}))
	register(modelProp("C06", 200000,
		"Flows and subflows with errors of all kinds, error links (also several, to joins) and error handlers that contain links, loops and failures of their own; non-trivial: an error link or an error handler was taken",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 8, 2, 4
			p.ErrLink, p.EH = 30, 65
			p.Fail, p.Panic, p.Retry, p.Loop, p.Sub = 30, 25, 8, 8, 10
			p.Async = 20
			p.MapFail, p.Risky, p.CondFail, p.SetFail = 20, 20, 6, 6
			p.Maps = 3
			return p
		},
		func(f map[string]int) bool { return f["error-link"]+f["error-handler"] > 0 }))
	register(modelProp("C07", 160000,
		"Up to four flows calling each other to depth three from tasks with loops, accumulation, retries and error links; subflows end normally, by return, by failure, by their error handler or empty; non-trivial: a subflow was executed",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 5, 4, 4
			p.Sub, p.Loop, p.Retry = 45, 12, 6
			p.Async = 25
			p.EH, p.ErrLink = 45, 20
			p.Fail, p.Panic, p.Return = 14, 25, 12
			p.RetErr = 15
			p.MapFail, p.Risky, p.CondFail, p.SetFail = 15, 15, 4, 4
			p.SetOut, p.EmptyFlow, p.Ctx = 40, 4, 8
			return p
		},
		func(f map[string]int) bool { return f["subflow"] > 0 }))
	register(modelProp("C20", 200000,
		"Flows and subflows with explicit returns and replies by activities at random places, in error handlers and before failures; non-trivial: a return or a reply was made",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 7, 3, 4
			p.Return, p.Reply, p.Sub = 25, 20, 20
			p.RetErr = 15
			p.EH, p.Fail, p.ErrLink = 35, 10, 12
			p.SetOut = 30
			return p
		},
		func(f map[string]int) bool { return f["explicit-return"]+f["reply"] > 0 }))
	register(modelProp("C24", 160000,
		"Flows calling each other to depth three whose activities map the context variables in plain inputs, conditions, loops and handlers; non-trivial: a subflow was executed",
		func(s *Src) Prof {
			p := baseProf()
			p.MaxTasks, p.MaxFlows, p.SubTasks = 4, 4, 4
			p.Sub, p.Loop = 45, 10
			p.Ctx = 100
			p.Maps = 5
			p.Risky, p.MapFail = 10, 30
			p.Fail, p.EH = 8, 40
			return p
		},
		func(f map[string]int) bool { return f["subflow"] > 0 }))
	c24 := props["C24"]
	c24.Variants = append(c24.Variants, Variant{Name: "named-application", Env: namedApp, Part: 8})
}
