package main

import (
	"fmt"
	"strings"
)

// C21: the order of the branches that leave an activity

type fan struct {
	c     *Cont
	from  *TI
	links []*Link
}

// emptyBefore: a loop before the task may be empty, so that nobody knows when it is done
func emptyBefore(g *Graph, id string) bool {
	for _, l := range incoming(g, id) {
		t := g.task(l.From)
		if t.Loop != nil && t.Loop.MayBeEmpty || emptyBefore(g, l.From) {
			return true
		}
	}
	return false
}

func dominated(g *Graph, id string) map[string]bool {
	d := map[string]bool{id: true}
	for again := true; again; {
		again = false
		for _, t := range g.Tasks {
			in := incoming(g, t.ID)
			if d[t.ID] || len(in) == 0 {
				continue
			}
			all := true
			for _, l := range in {
				all = all && d[l.From]
			}
			if all {
				d[t.ID] = true
				again = true
			}
		}
	}
	return d
}

func runC21(cx *Cx) *Outcome {
	class := map[string]int{"label": 4, "other": 3, "expr": 2, "dep": 1}
	if cx.Var.Name == prioVar.Name {
		class = map[string]int{"expr": 4, "other": 3, "label": 2, "dep": 1}
	}
	p := baseProf()
	p.MaxTasks, p.MaxFlows, p.SubTasks = 9, 2, 5
	p.Chain = cx.S.N(3) * 30
	p.Expr, p.Other, p.Label, p.ErrLink = 30, 18, 22, 8
	p.Sub, p.Loop, p.Retry, p.Fail = 12, 10, 6, 6
	p.MaxIter, p.EH, p.Maps = 3, 15, 1
	cs := genCase(cx.S, p)
	var fans []fan
	o, r := runCase(cx, cs, &RunOpts{Prepare: func(r *Run) {
		r.M.onFact = func(f *Fact) {
			if f.Kind != "done" {
				return
			}
			fn := fan{c: f.C, from: f.TI}
			for _, l := range outgoing(f.TI.g, f.Task) {
				n, ready := 0, true
				for _, x := range incoming(f.TI.g, l.To) {
					if x.From == f.Task {
						n++
					} else if f.C.links[x] == 0 {
						ready = false
					}
				}
				if n == 1 && ready && (len(incoming(f.TI.g, l.To)) == 1 || !emptyBefore(f.TI.g, l.To)) {
					fn.links = append(fn.links, l)
				}
			}
			if len(fn.links) > 1 {
				fans = append(fans, fn)
			}
		}
	}})
	if o.Viol != "" || r == nil {
		return o
	}
	m := r.M
	pairs := 0
	for _, fn := range fans {
		started := map[string]bool{}
		for _, f := range m.facts {
			if f.Kind == "begin" && f.C == fn.c {
				started[f.Task] = true
			}
		}
		for _, a := range fn.links {
			if fn.c.links[a] != 1 || !started[a.To] {
				continue
			}
			dom := dominated(fn.from.g, a.To)
			last, what := -1, ""
			for i, f := range m.facts {
				if f.Kind != "begin" {
					continue
				}
				in := f.C == fn.c && dom[f.Task]
				if !in && strings.HasPrefix(f.Pid, fn.c.pid+".") {
					t := f.Pid[len(fn.c.pid)+1:]
					in = dom[t[:strings.IndexByte(t, '~')]]
				}
				if in {
					last, what = i, f.Pid+"/"+f.Task
				}
			}
			for _, b := range fn.links {
				if fn.c.links[b] != 1 || !started[b.To] || class[a.Type] <= class[b.Type] {
					continue
				}
				pairs++
				for i, f := range m.facts {
					if f.Kind == "begin" && f.C == fn.c && f.Task == b.To {
						if i < last {
							o.Viol = fmt.Sprintf("after %s, task %s (%s link) begins before %s of the branch of %s (%s link) has run", fn.from.t.ID, b.To, b.Type, what, a.To, a.Type)
							o.Hist = append(o.Hist, "!! "+o.Viol)
							return o
						}
						break
					}
				}
			}
		}
	}
	o.Feat["ordered-pairs"] += pairs
	o.Non = pairs > 0
	return o
}

func init() {
	register(&Prop{ID: "C21", Quick: 140000, Thorough: 1800000, Run: runC21, Variants: []Variant{seqVar, prioVar},
		Rule: "Flows with fan-outs of mixed links to plain, looping, retried, failing and subflow tasks and branches of several tasks, with and without priority of conditional links; non-trivial: two branches of different priority were started by one activity"})
}
