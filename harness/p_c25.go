package main

// C25: schemas of inputs and outputs

func runC25(cx *Cx) *Outcome {
	s := cx.S
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 6, 2, 4
	p.Sub, p.Loop, p.Retry, p.Async = 18, 12, 8, 20
	p.Schema = 60
	p.Maps = 4
	p.ErrLink, p.EH, p.Fail = 30, 45, 8
	p.MapFail, p.Risky, p.SetOut, p.Return = 12, 15, 25, 4
	ro := &RunOpts{}
	if len(cx.Var.Env) > 0 {
		p.MaxTasks = 7
		p.Sub, p.Loop, p.Fail, p.Async = 12, 10, 5, 0
		p.SetOut, p.MaxIter, p.Maps = 0, 3, 2
		p.Terminals = s.N(2)
		ro = &RunOpts{Conc: true, Choices: s.N}
	}
	cs := genCase(s, p)
	o, _ := runCase(cx, cs, ro)
	if ro.Conc && o.Viol == "" {
		takeOrphans()
	}
	n := 0
	for _, f := range cs.Flows {
		for _, g := range []*Graph{f.G, f.EH} {
			for i := 0; g != nil && i < len(g.Tasks); i++ {
				if t := g.Tasks[i]; t.InSch != nil || t.OutSch != nil {
					n++
				}
			}
		}
	}
	o.Feat["tasks-with-schemas"] += n
	o.Non = o.Feat["schema-violated"] > 0 || n > 1 && o.Feat["executions"] > 2
	return o
}

func init() {
	register(&Prop{ID: "C25", Quick: 120000, Thorough: 1500000, Run: runC25,
		Variants: []Variant{{Name: "validating"}, {Name: "concurrent", Env: concVar.Env}, {Name: "not-validating"}, {Name: "disabled"}},
		Init: func(v *Variant) {
			switch v.Name {
			case "not-validating":
				schemaInit(schemaSilent)
			case "disabled":
				schemaInit(schemaOff)
			default:
				schemaInit(schemaValidate)
			}
			initEngine(nil, nil)
		},
		Rule: "Flows whose activities and subflow calls have schemas (inline, by reference, of unused inputs, none) of inputs and outputs that the data may violate, with validation on, off, or schemas not enabled, in sequence and concurrently, with loops, retries, error links and handlers; non-trivial: a schema was violated, or at least two tasks with schemas and three executions"})
}
