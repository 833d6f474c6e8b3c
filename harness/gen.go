package main

import (
	"fmt"
	"strings"
)

// Prof says what a property wants to see in its flows (percentages)
type Prof struct {
	MaxTasks  int
	MaxFlows  int
	SubTasks  int // tasks of a called flow
	Chain     int // preference for chains
	Expr      int
	Other     int
	Label     int
	ErrLink   int
	Parallel  int
	EH        int
	Fail      int
	Panic     int
	Retry     int
	Loop      int
	Sub       int
	Return    int
	Reply     int
	MapFail   int
	Risky     int
	CondFail  int
	SetFail   int
	SetOK     int
	SetOut    int
	Maps      int // extra mappings per task
	Ctx       int
	MaxIter   int
	Terminals int // -1: any number of failures that end a flow
	EmptyFlow int
	OnProbe   int
	RetSub    int // return in subflows only
	Detached  int
	BadURI    int
	NoLeadMix bool
	Same      int // flows that use the same names for tasks and inputs
	Rec       int // a flow that calls itself
	RetErr    int // returns with an error
	Legacy    int // activities of the old kind
	Schema    int // tasks with schemas of inputs and outputs
	Async     int // subflows called by an activity that is told of their end
	Big       int // large flows
	IDs       int // other task ids
	Delay     int // loops with a delay
	Typed     int // outputs of other Go types
	When      int // outputs that are not always set
	Junk      int // outputs set before a failure
	Props     int // references to properties and environment variables
}

func baseProf() Prof {
	return Prof{MaxTasks: 8, MaxFlows: 1, SubTasks: 4, Chain: 50, Expr: 30, Other: 15, Label: 10, ErrLink: 10, Parallel: 15, EH: 30,
		Maps: 2, MaxIter: 4, Terminals: -1, SetOut: 20, SetOK: 5, Risky: 10, Ctx: 5, Same: 25, Rec: 3,
		Big: 2, IDs: 20, Delay: 4, Typed: 20, When: 20, Junk: 30, Props: 3, Legacy: 6}
}

type gctx struct {
	s    *Src
	p    Prof
	cs   *Case
	f    *Flow
	fi   int
	g    *Graph
	eh   bool
	term int // remaining terminal events
	sf   bool
	same bool
	ids  int
	rec  string                    // the task that calls its own flow
	cert map[string]map[string]int // task -> ancestor -> 1 succeeded 2 failed
	anc  map[string]map[string]bool
	n    int
	tok  *int
}

func (g *gctx) nextTok() string {
	*g.tok++
	return fmt.Sprintf("t%d", *g.tok)
}

// genCase generates flows and the inputs of the first
func genCase(s *Src, p Prof) *Case {
	cs := &Case{}
	nf := 1
	if p.MaxFlows > 1 {
		nf = 1 + s.N(p.MaxFlows)
		if p.Sub > 0 && nf == 1 && s.P(60) {
			nf = 2
		}
	}
	for i := 0; i < nf; i++ {
		f := &Flow{Name: fmt.Sprintf("flow%d", i)}
		cs.Flows = append(cs.Flows, f)
	}
	term := p.Terminals
	if term < 0 {
		term = 1 << 20
	}
	tok := 0
	same := nf > 1 && s.P(p.Same)
	ids := 0
	if s.P(p.IDs) {
		ids = 1 + s.N(2)
	}
	if s.P(p.Big) {
		p.MaxTasks = 40
	}
	for i := range cs.Flows {
		k := i
		if same {
			k = 0
		}
		rec := p.Terminals < 0 && s.P(p.Rec)
		genIO(s, cs.Flows[i], i > 0 || rec, k)
		if rec {
			pr := &Param{Name: fmt.Sprintf("d%d", k), Type: "integer", Value: s.N(3)}
			cs.Flows[i].In = append(cs.Flows[i].In, pr)
			cs.Flows[i].rec = pr.Name
		}
	}
	for i := range cs.Flows {
		g := &gctx{s: s, p: p, cs: cs, f: cs.Flows[i], fi: i, term: term, tok: &tok, same: same, ids: ids}
		g.flow()
		term = g.term
	}
	cs.In = map[string]interface{}{}
	for _, p := range cs.Flows[0].In {
		if p.Value != nil && s.P(40) {
			continue // declared default
		}
		if p.Value == nil && p.Name[0] == 'u' && s.P(50) {
			continue
		}
		cs.In[p.Name] = genLitOf(s, p.Type)
	}
	return cs
}

func genLitOf(s *Src, typ string) interface{} {
	switch typ {
	case "boolean":
		return s.N(2) == 0
	case "integer":
		return s.N(5)
	case "string":
		return s.Str("", "x", "hello world", "=not", "ünï", "$flow.x", "12")
	case "object":
		return map[string]interface{}{"x": s.N(4), "y": map[string]interface{}{"z": s.Str("p", "q")}, "l": []interface{}{s.N(9), "e"}}
	case "array":
		a := []interface{}{}
		for i, n := 0, s.N(4); i < n; i++ {
			a = append(a, s.N(10))
		}
		return a
	}
	switch s.N(6) {
	case 0:
		return s.N(100)
	case 1:
		return s.Str("any", "")
	case 2:
		return s.N(2) == 0
	case 3:
		return 1.5
	case 4:
		return []interface{}{"a", 1, nil}
	}
	return map[string]interface{}{"k": "v"}
}

var ioTypes = []struct{ n, t string }{{"b", "boolean"}, {"n", "integer"}, {"s", "string"}, {"o", "object"}, {"l", "array"}, {"u", "any"}}

func genIO(s *Src, f *Flow, called bool, k int) {
	for _, x := range ioTypes {
		pr := &Param{Name: fmt.Sprintf("%s%d", x.n, k), Type: x.t}
		if x.n != "u" {
			// the first flow gets its inputs, or the default; a called flow always has a default
			if called || s.P(50) {
				pr.Value = genLitOf(s, x.t)
			}
		}
		f.In = append(f.In, pr)
	}
	n := s.N(4)
	for j := 0; j < n; j++ {
		o := &Param{Name: fmt.Sprintf("r%d", j), Type: "any"}
		if s.P(30) {
			o.Type = s.Str("integer", "string", "boolean")
		}
		if s.P(20) {
			o.Value = genLitOf(s, o.Type)
		}
		f.Out = append(f.Out, o)
	}
	if s.P(30) {
		// an input that also is an output
		f.Out = append(f.Out, &Param{Name: fmt.Sprintf("n%d", k), Type: "integer"})
	}
}

// taskID gives the ids of the tasks of a flow: numbers, ids that are prefixes
// of each other, and ids that differ in case only
func taskID(style int, prefix string, fi, i int) string {
	switch style {
	case 1:
		return fmt.Sprintf("%s%d_", prefix, fi) + strings.Repeat("x", i+1)
	case 2:
		id := fmt.Sprintf("%s%dx%d", prefix, fi, i/2)
		if i%2 == 1 {
			id = fmt.Sprintf("%s%dX%d", prefix, fi, i/2)
		}
		return id
	}
	return fmt.Sprintf("%s%d_%d", prefix, fi, i)
}

func (g *gctx) flow() {
	s, p := g.s, g.p
	max := p.MaxTasks
	if g.fi > 0 {
		max = p.SubTasks
	}
	g.f.G = g.graph("N", max, s.P(p.EmptyFlow))
	if s.P(p.EH) {
		g.eh = true
		g.f.EH = g.graph("H", 3, s.P(p.EmptyFlow))
		g.eh = false
	}
}

func (g *gctx) graph(prefix string, max int, empty bool) *Graph {
	s, p := g.s, g.p
	gr := &Graph{}
	g.g = gr
	g.cert = map[string]map[string]int{}
	g.anc = map[string]map[string]bool{}
	if empty {
		return gr
	}
	n := 1 + s.N(max)
	fi := g.fi
	if g.same {
		fi = 0
	}
	for i := 0; i < n; i++ {
		t := &Task{ID: taskID(g.ids, prefix, fi, i)}
		if s.P(20) {
			t.Name = "Task " + t.ID
			if s.P(50) {
				t.Name = "Step" // names need not be distinct
			}
		}
		if i > 0 && g.f.rec != "" && g.rec == "" && s.P(40) {
			// calls its own flow, while the depth allows it
			g.rec = t.ID
			gr.Links = append(gr.Links, &Link{From: gr.Tasks[s.N(i)].ID, To: t.ID, Type: "expr", Cond: Op(">", FlowRef(g.f.rec), Lit(0)), Spell: s.N(4)})
			t.Sub = g.fi + 1
			gr.Tasks = append(gr.Tasks, t)
			g.facts(t)
			if s.P(20) {
				t.Loop = &Loop{Kind: "iter", Acc: s.P(50), OnLit: 2}
			}
			t.Maps = append(t.Maps, &Mapping{Name: "pid", E: probeExpr("S", t.ID, nil)}, &Mapping{Name: g.f.rec, E: Op("-", FlowRef(g.f.rec), Lit(1))})
			for _, pr := range g.f.In {
				if pr.Name != g.f.rec && s.P(40) {
					g.typedMap(t, pr.Name, pr.Type, true)
				}
			}
			continue
		}
		// incoming links
		np := 0
		if i > 0 {
			if s.P(p.Chain) {
				np = 1
			} else {
				np = s.Pick(15, 40, 30, 15)
			}
		}
		type src struct {
			l *Link
		}
		froms := map[string]bool{}
		for k := 0; k < np; k++ {
			var from *Task
			if k == 0 && s.P(p.Chain) {
				from = gr.Tasks[i-1]
			} else {
				from = gr.Tasks[s.N(i)]
			}
			if froms[from.ID] && !s.P(p.Parallel) {
				continue
			}
			froms[from.ID] = true
			g.link(from, t)
		}
		gr.Tasks = append(gr.Tasks, t)
		g.facts(t)
		g.fill(t)
	}
	// the order in the document must not matter
	if s.P(30) {
		for i := len(gr.Tasks) - 1; i > 0; i-- {
			j := s.N(i + 1)
			gr.Tasks[i], gr.Tasks[j] = gr.Tasks[j], gr.Tasks[i]
		}
	}
	if s.P(30) {
		for i := len(gr.Links) - 1; i > 0; i-- {
			j := s.N(i + 1)
			gr.Links[i], gr.Links[j] = gr.Links[j], gr.Links[i]
		}
	}
	return gr
}

func (g *gctx) link(from, to *Task) {
	s, p := g.s, g.p
	l := &Link{From: from.ID, To: to.ID, Type: "dep", Spell: s.N(4)}
	r := s.N(100)
	switch {
	case r < 100-p.Expr-p.Other-p.Label-p.ErrLink:
	case r < 100-p.Other-p.Label-p.ErrLink:
		l.Type = "expr"
		l.Cond = g.cond(from)
		if s.P(30) {
			l.Label = "lbl"
		}
	case r < 100-p.Label-p.ErrLink:
		has := false
		for _, x := range outgoing(g.g, from.ID) {
			if x.Type == "other" {
				has = true
			}
		}
		if !has {
			l.Type = "other"
		}
	case r < 100-p.ErrLink:
		l.Type = "label"
		l.Label = "on success"
	default:
		l.Type = "error"
	}
	g.g.Links = append(g.g.Links, l)
}

// facts computes what surely has happened when the task runs
func (g *gctx) facts(t *Task) {
	anc := map[string]bool{}
	var cert map[string]int
	for i, l := range incoming(g.g, t.ID) {
		anc[l.From] = true
		for a := range g.anc[l.From] {
			anc[a] = true
		}
		c := map[string]int{}
		for k, v := range g.cert[l.From] {
			c[k] = v
		}
		if l.Type == "error" {
			c[l.From] = 2
		} else {
			c[l.From] = 1
		}
		if i == 0 {
			cert = c
		} else {
			for k, v := range cert {
				if c[k] != v {
					delete(cert, k)
				}
			}
		}
	}
	if cert == nil {
		cert = map[string]int{}
	}
	g.anc[t.ID] = anc
	g.cert[t.ID] = cert
}

func (g *gctx) inParam(typ string) *Expr {
	for _, p := range g.f.In {
		if p.Type == typ {
			e := FlowRef(p.Name)
			e.Dot = g.s.P(30)
			return e
		}
	}
	return nil
}

// outputs of a task that succeeded for sure exist
func (t *Task) sureOut(kind string) (string, bool) {
	if t.Sub > 0 || (t.Loop != nil && (t.Loop.MayBeEmpty || (t.Loop.Kind == "iter" && t.Loop.Acc))) {
		return "", false
	}
	for _, o := range t.Outs {
		if o.When == 0 && (o.Kind == kind || kind == "") {
			return o.Name, true
		}
	}
	return "", false
}

// anyOut picks one of the outputs that are always set; there is one
func (t *Task) anyOut(s *Src) *OutSpec {
	var os []*OutSpec
	for i := range t.Outs {
		if t.Outs[i].When == 0 {
			os = append(os, &t.Outs[i])
		}
	}
	return os[s.N(len(os))]
}

// cond generates the condition of a link from the task
func (g *gctx) cond(from *Task) *Expr {
	s, p := g.s, g.p
	if !(from.Loop != nil && from.Loop.MayBeEmpty) && !from.returns() && s.P(p.CondFail) && g.terminal() {
		switch s.N(4) {
		case 0:
			return Fn("fail", Lit(g.nextTok()))
		case 1:
			return ActRef("nosuch", "val")
		case 2:
			return Fn("boom", Lit(g.nextTok()))
		default:
			return Lit("maybe")
		}
	}
	if s.P(15) {
		if e := g.errCond(from); e != nil {
			return e
		}
	}
	var e *Expr
	switch s.N(9) {
	case 8:
		// values that stand for true or false
		if s.P(50) {
			return g.inParam("integer")
		}
		if o, ok := from.sureOut("num"); ok {
			return ActRef(from.ID, o)
		}
		e = Op("-", g.inParam("integer"), Lit(s.N(4)))
	case 7:
		e = Lit([]interface{}{"true", "false", "1", "0", 0, 1, 2, 0.5}[s.N(8)])
	case 6:
		// what a task before produced
		var as []*Task
		for _, id := range sortedKeys(g.cert[from.ID]) {
			if a := g.g.task(id); g.cert[from.ID][id] == 1 {
				if _, ok := a.sureOut("num"); ok {
					as = append(as, a)
				}
			}
		}
		if len(as) == 0 {
			e = g.inParam("boolean")
			break
		}
		a := as[s.N(len(as))]
		o, _ := a.sureOut("num")
		e = Op(s.Str("==", "<", ">=", "!="), ActRef(a.ID, o), Lit(s.N(3)))
	case 0:
		e = Lit(s.N(2) == 0)
	case 1:
		e = g.inParam("boolean")
	case 2:
		e = Op(s.Str("==", "<", ">", "!=", "<=", ">="), g.inParam("integer"), Lit(s.N(4)))
	case 3:
		if o, ok := from.sureOut("num"); ok {
			e = Op(s.Str("==", "<", ">=", "!="), ActRef(from.ID, o), Lit(s.N(3)))
		} else if o, ok := from.sureOut("tok"); ok {
			e = Op(s.Str("==", "!="), ActRef(from.ID, o), Lit("x"))
		} else {
			e = Op(s.Str("==", "!="), g.inParam("string"), Lit(s.Str("", "x")))
		}
	case 4:
		e = Op(s.Str("&&", "||"), g.inParam("boolean"), Op("<", g.inParam("integer"), Lit(s.N(5))))
	default:
		ip := g.inParam("object")
		ip.Path = []string{"x"}
		e = Op(s.Str("==", "<", ">"), ip, Lit(s.N(4)))
	}
	return e
}

// errCond generates a condition over the error of a task that has failed, or of the flow
func (g *gctx) errCond(from *Task) *Expr {
	s := g.s
	var as []*Task
	for _, id := range sortedKeys(g.cert[from.ID]) {
		if g.cert[from.ID][id] == 2 {
			as = append(as, g.g.task(id))
		}
	}
	var ref *Expr
	var ts []*Task
	switch {
	case len(as) > 0:
		a := as[s.N(len(as))]
		ref, ts = ErrRef(a.ID, "message"), []*Task{a}
	case g.eh && g.f.G != nil:
		ref, ts = ErrRef("", "message"), g.f.G.Tasks
	default:
		return nil
	}
	var toks []string
	for _, t := range ts {
		for _, b := range t.Script {
			if b.Tok != "" {
				toks = append(toks, "/"+t.ID+":"+b.Tok+";")
			}
		}
	}
	if len(toks) == 0 {
		return nil
	}
	return Fn("has", ref, Lit(toks[s.N(len(toks))]))
}

func (g *gctx) terminal() bool {
	if g.term <= 0 || g.p.Terminals >= 0 && g.cs.calls(g.fi) > 1 {
		return false
	}
	g.term--
	return true
}

// calls tells how often the flow is called (more than once: at least 2)
func (cs *Case) calls(fi int) int {
	if cs.Flows[fi].rec != "" {
		return 2
	}
	if fi == 0 {
		return 1
	}
	n := 0
	for i := 0; i < fi; i++ {
		for _, gr := range []*Graph{cs.Flows[i].G, cs.Flows[i].EH} {
			if gr == nil {
				continue
			}
			for _, t := range gr.Tasks {
				if t.Sub == fi+1 {
					k := cs.calls(i)
					if t.Loop != nil || t.Retry != nil {
						k = 2
					}
					n += k
				}
			}
		}
	}
	return n
}

// safe generates an expression that cannot fail in the task
func (g *gctx) safe(t *Task) *Expr {
	s := g.s
	var opts []func() *Expr
	lit := func() *Expr { return Lit(genScalar(s)) }
	opts = append(opts, lit)
	flow := func() *Expr {
		x := ioTypes[s.N(len(ioTypes))]
		e := g.inParam(x.t)
		if x.t == "object" && s.P(50) {
			e.Path = [][]string{{"x"}, {"y", "z"}, {"l", "1"}, {"y"}}[s.N(4)]
		}
		return e
	}
	opts = append(opts, flow)
	if t == nil {
		return opts[s.N(len(opts))]()
	}
	var sure []func() *Expr
	for _, id := range sortedKeys(g.cert[t.ID]) {
		a := g.g.task(id)
		if g.cert[t.ID][id] == 1 {
			if _, ok := a.sureOut(""); ok {
				a := a
				sure = append(sure, func() *Expr {
					o := a.anyOut(s)
					e := ActRef(a.ID, o.Name)
					if m, ok := o.V.(map[string]interface{}); ok && o.Kind == "lit" && s.P(50) {
						if _, ok := m["k"]; ok {
							e.Path = []string{"k"}
						}
					}
					return e
				})
			}
			if a.Sub == 0 && a.Loop != nil && a.Loop.Acc && !a.Loop.MayBeEmpty && len(a.Outs) > 0 {
				a := a
				sure = append(sure, func() *Expr {
					e := &Expr{K: "acc", Name: a.ID}
					if s.P(40) {
						e.Path = []string{"0", a.anyOut(s).Name}
					}
					return e
				})
			}
		} else if g.cert[t.ID][id] == 2 {
			a := a
			sure = append(sure, func() *Expr { return ErrRef(a.ID, g.errField("")) })
		}
	}
	if len(sure) > 0 {
		k := func() *Expr { return sure[s.N(len(sure))]() }
		opts = append(opts, k, k, k)
	}
	if g.eh {
		opts = append(opts, func() *Expr { return ErrRef("", g.errField("code")) })
	}
	if s.P(g.p.Ctx) {
		opts = append(opts, func() *Expr {
			return CtxRef(s.Str("FlowName", "FlowId", "ParentFlowName", "ParentFlowId", "FlowName", "FlowId", "ParentFlowName", "ParentFlowId", "AppName", "AppVersion"))
		})
	}
	if s.P(g.p.Props) {
		opts = append(opts, func() *Expr {
			switch s.N(4) {
			case 0:
				return &Expr{K: "env", Name: "VRUN_REF"}
			case 1:
				return &Expr{K: "prop", Name: "p"}
			case 2:
				return &Expr{K: "prop", Name: "np"}
			}
			return &Expr{K: "prop", Name: "op"}
		})
	}
	if t.Loop != nil {
		it := func() *Expr {
			if t.Loop.Kind == "dowhile" {
				return IterRef("index")
			}
			if l := t.Loop.Fields; len(l) > 0 && s.P(60) {
				e := IterRef("value")
				e.Path = []string{l[s.N(len(l))]}
				return e
			}
			return IterRef(s.Str("value", "index", "key"))
		}
		opts = append(opts, it, it)
	}
	return opts[s.N(len(opts))]()
}

func genScalar(s *Src) interface{} {
	switch s.N(5) {
	case 0:
		return s.N(1000)
	case 1:
		return s.Str("s", "a b", "it's", "q")
	case 2:
		return s.N(2) == 0
	case 3:
		return 2.25
	}
	return s.Str("lit", "")
}

// risky generates an expression that may fail
func (g *gctx) risky(t *Task) *Expr {
	s, p := g.s, g.p
	if s.P(p.MapFail) && g.mayFail(t) {
		switch s.N(9) {
		case 7, 8:
			// what exists in another flow only
			if e := g.foreign(); e != nil {
				return e
			}
			return FlowRef("nosuch")
		case 0:
			return Fn("fail", Lit(g.nextTok()))
		case 1:
			return Fn("boom", Lit(g.nextTok()))
		case 2:
			return ActRef("nosuch", "val")
		case 3:
			return FlowRef("nosuch")
		case 4:
			return CtxRef("NoSuch")
		case 5:
			return ErrRef("nosuch", "message")
		default:
			if t.Loop == nil {
				return IterRef("value")
			}
			return ActRef(t.ID, "nosuch")
		}
	}
	var as []string
	for _, id := range sortedKeys(g.anc[t.ID]) {
		a := g.g.task(id)
		if a.Loop != nil && a.Loop.MayBeEmpty {
			continue
		}
		as = append(as, id)
	}
	if len(as) > 0 && g.mayFail(t) {
		a := g.g.task(as[s.N(len(as))])
		if a.Sub > 0 {
			f := g.cs.Flows[a.Sub-1]
			if len(f.Out) > 0 && !(a.Loop != nil && a.Loop.Kind == "iter" && a.Loop.Acc) {
				return ActRef(a.ID, f.Out[s.N(len(f.Out))].Name)
			}
			if a.Loop != nil && a.Loop.Acc {
				return &Expr{K: "acc", Name: a.ID}
			}
		} else if len(a.Outs) > 0 {
			if a.Loop != nil && a.Loop.Kind == "iter" && a.Loop.Acc {
				return &Expr{K: "acc", Name: a.ID}
			}
			return ActRef(a.ID, a.Outs[s.N(len(a.Outs))].Name)
		}
	}
	return g.safe(t)
}

// foreign generates a reference to data of another flow
func (g *gctx) foreign() *Expr {
	s := g.s
	if len(g.cs.Flows) < 2 {
		return nil
	}
	i := s.N(len(g.cs.Flows) - 1)
	if i >= g.fi {
		i++
	}
	f := g.cs.Flows[i]
	if f.G == nil || len(f.G.Tasks) == 0 || s.P(40) {
		p := f.In[s.N(len(f.In))]
		for _, q := range append(append([]*Param{}, g.f.In...), g.f.Out...) {
			if q.Name == p.Name {
				return nil
			}
		}
		return FlowRef(p.Name)
	}
	t := f.G.Tasks[s.N(len(f.G.Tasks))]
	if g.same || len(t.Outs) == 0 {
		return nil // there may be such a task
	}
	if t.Loop != nil && t.Loop.Kind == "iter" && t.Loop.Acc {
		return &Expr{K: "acc", Name: t.ID}
	}
	return ActRef(t.ID, t.Outs[s.N(len(t.Outs))].Name)
}

// mayFail: failures of the task are allowed (it has an error link, or ends the flow)
func (g *gctx) mayFail(t *Task) bool {
	if g.p.Terminals < 0 {
		return true
	}
	// links out of the task are not known yet, so assume that it ends the flow
	return g.terminal()
}

func (g *gctx) fill(t *Task) {
	s, p := g.s, g.p
	if s.P(p.Sub) && g.fi+1 < len(g.cs.Flows) {
		t.Sub = 1 + g.fi + 1 + s.N(len(g.cs.Flows)-g.fi-1)
		if p.Detached > 0 {
			t.Detached = s.P(p.Detached)
			t.BadURI = s.P(p.BadURI)
		}
		if !t.Detached && !t.BadURI {
			t.Async = s.P(p.Async)
		}
	}
	if s.P(8) {
		t.Basic = "basic"
	}
	if s.P(p.Loop) {
		t.Loop = g.loop(t)
	}
	if t.Sub == 0 {
		no := 1 + s.N(3)
		names := []string{"val", "i", "tag", "o", "arr", "in"}
		used := map[string]bool{}
		for k := 0; k < no; k++ {
			nm := names[s.N(len(names))]
			if k == 0 && t.Loop != nil && t.Loop.Kind == "dowhile" {
				nm = "i"
			}
			if used[nm] {
				continue
			}
			used[nm] = true
			o := OutSpec{Name: nm}
			switch nm {
			case "val":
				o.Kind = "tok"
			case "i":
				o.Kind = "num"
			case "tag":
				o.Kind, o.V = "lit", s.Str("red", "green", "")
			case "o":
				o.Kind, o.V = "lit", map[string]interface{}{"k": s.N(5), "m": map[string]interface{}{"n": "deep"}}
			case "arr":
				o.Kind, o.V = "lit", []interface{}{"e0", s.N(5)}
			case "in":
				o.Kind = "echo"
			}
			if nm == "arr" && s.P(p.Typed) {
				o.Kind, o.V = "typed", s.Str("strings", "ints", "floats", "array", "objs", "none", "bytes")
			}
			if k > 0 && s.P(p.When) {
				o.When = 1 + s.N(3)
			}
			t.Outs = append(t.Outs, o)
		}
	}
	if t.Loop != nil && t.Loop.Kind == "dowhile" && t.Loop.Cond == nil {
		t.Loop.Cond = g.loopCond(t)
	}
	// behaviour
	fails := false
	if t.Sub == 0 || t.Async {
		fails = g.script(t)
	} else if s.P(p.Retry) {
		t.Retry = &Retry{Count: 1 + s.N(2)}
	}
	if t.Loop == nil && len(t.Script) == 0 && t.Sub == 0 {
		g.special(t)
	}
	if t.Loop == nil && t.Retry == nil && s.P(p.SetFail) && !g.sf && g.plainPreds(t) && g.mayFail(t) {
		g.sf = true
		t.SetFail = [](func() *Expr){
			func() *Expr { return Fn("fail", Lit(g.nextTok())) },
			func() *Expr { return Fn("boom", Lit(g.nextTok())) },
			func() *Expr { return ActRef("nosuch", "x") },
			func() *Expr { return FlowRef("nosuch") },
		}[s.N(4)]()
	} else if s.P(p.SetOK) {
		t.SetOK = g.safeNoIter(t)
	}
	g.maps(t, fails)
	if t.Sub == 0 && s.P(p.Legacy) {
		t.Legacy = true
		for _, k := range legacyOuts {
			if s.P(25) {
				if t.LegOut == nil {
					t.LegOut = map[string]interface{}{}
				}
				t.LegOut[k] = map[string]interface{}{"val": "cv", "tag": "ct", "i": 3, "o": map[string]interface{}{"k": "co"}, "arr": []interface{}{"ca"}, "in": nil}[k]
			}
		}
		if s.P(40) {
			t.Cfg = map[string]interface{}{"num": s.N(5), "str": "ls"}
		}
	}
	if s.P(p.Schema) {
		g.schemas(t)
	}
}

// schemas gives inputs and outputs of the task schemas, which their values may violate
// errField: a field of an error; those that are not specified for all errors are not validated
func (g *gctx) errField(x string) string {
	if g.p.Schema > 0 {
		return g.s.Str("message", "activity")
	}
	return g.s.Str("message", "activity", "code", "data", x)
}

func (g *gctx) schemas(t *Task) {
	s := g.s
	if t.Sub == 0 && !t.Legacy && s.P(12) {
		t.Bypass = true
	}
	may := (t.Retry == nil || g.p.Terminals < 0) && !t.returns() && g.mayFail(t)
	sch := func() *Sch {
		x := &Sch{Tok: g.nextTok() + ";"}
		switch s.N(8) {
		case 0:
			return &Sch{None: true}
		case 1:
			if may {
				return regSchema(schemaTypes[s.N(len(schemaTypes))])
			}
		case 2:
			return x
		}
		if !may {
			return x
		}
		for i, n := 0, 1+s.N(3); i < n; i++ {
			x.Not = append(x.Not, schemaTypes[s.N(len(schemaTypes))])
		}
		return x
	}
	out := func(n string) {
		if s.P(40) {
			if t.OutSch == nil {
				t.OutSch = map[string]*Sch{}
			}
			t.OutSch[n] = sch()
		}
	}
	for _, o := range t.Outs {
		out(o.Name)
	}
	if t.Sub > 0 {
		for _, o := range g.cs.Flows[t.Sub-1].Out {
			out(o.Name)
		}
	}
	out("val") // perhaps not an output
	if t.Loop != nil && usesProbe(t.Loop.On) {
		return
	}
	probed := false
	for _, m := range t.Maps {
		if s.P(40) && m.Name != "pid" && m.Name != "pt" && (m.E == nil || !usesProbe(m.E)) {
			if t.InSch == nil {
				t.InSch = map[string]*Sch{}
			}
			t.InSch[m.Name] = sch()
		}
		probed = probed || m.E != nil && probes(m.E, "T")
	}
	if s.P(20) && t.InSch != nil && !hasMap(t, "b") {
		t.InSch["b"] = sch()
	}
	if t.InSch != nil && !probed && t.Sub == 0 {
		var key *Expr
		if t.Loop != nil && t.Loop.Object {
			key = IterRef("key")
		}
		t.Maps[0].E = Fn("seq", probeExpr("T", t.ID, key), t.Maps[0].E)
	}
}

func (g *gctx) safeNoIter(t *Task) *Expr {
	l := t.Loop
	t.Loop = nil
	e := g.safe(t)
	t.Loop = l
	return e
}

// plainPreds: all predecessors are plain activities
func (g *gctx) plainPreds(t *Task) bool {
	for _, l := range incoming(g.g, t.ID) {
		a := g.g.task(l.From)
		if a.Sub > 0 || a.Loop != nil {
			return false
		}
		for id := range g.anc[t.ID] {
			b := g.g.task(id)
			if b.Loop != nil || b.Sub > 0 {
				return false
			}
		}
	}
	return true
}

func (g *gctx) loop(t *Task) *Loop {
	s, p := g.s, g.p
	max := p.MaxIter
	if t.Sub > 0 && max > 3 {
		max = 3
	}
	l := &Loop{Kind: "iter", Acc: s.P(50), NoEq: s.P(30)}
	if s.P(p.Delay) {
		l.Delay = 1
	}
	if s.P(40) {
		l.Kind = "dowhile"
		l.Form = s.N(3)
		return l
	}
	l.Form = s.N(4)
	if l.Form >= 2 {
		// also a setting of the task
		l.NoEq = s.P(30)
	}
	switch s.N(11) {
	case 9:
		// objects
		a := []interface{}{}
		o := map[string]interface{}{}
		for i, n := 0, 1+s.N(max); i < n; i++ {
			x := map[string]interface{}{"x": s.N(9), "y": genScalar(s)}
			a = append(a, x)
			o[fmt.Sprintf("k%d", i)] = x
		}
		l.OnLit = a
		if s.P(40) {
			l.OnLit = o
			l.Object = true
		}
		l.Fields = []string{"x", "y"}
	case 10:
		// what a loop before collected
		var as []*Task
		for _, id := range sortedKeys(g.cert[t.ID]) {
			a := g.g.task(id)
			if g.cert[t.ID][id] == 1 && a.Sub == 0 && a.Loop != nil && a.Loop.Acc && !a.Loop.MayBeEmpty && len(a.Outs) > 0 {
				as = append(as, a)
			}
		}
		if len(as) == 0 {
			l.On = g.inParam("array")
			l.MayBeEmpty = true
			break
		}
		a := as[s.N(len(as))]
		l.On = &Expr{K: "acc", Name: a.ID}
		l.Fields = []string{a.anyOut(s).Name}
	case 0:
		n := s.N(max + 1)
		l.OnLit = n
		l.MayBeEmpty = n == 0
	case 1:
		a := []interface{}{}
		for i, n := 0, s.N(max+1); i < n; i++ {
			a = append(a, genScalar(s))
		}
		l.OnLit = a
		l.MayBeEmpty = len(a) == 0
	case 2:
		o := map[string]interface{}{}
		for i, n := 0, s.N(max+1); i < n; i++ {
			o[fmt.Sprintf("k%d", i)] = s.N(50)
		}
		l.OnLit = o
		l.MayBeEmpty = len(o) == 0
		l.Object = true
	case 3:
		l.On = g.inParam("array")
		l.MayBeEmpty = true
	case 4:
		l.On = g.inParam("integer")
		l.MayBeEmpty = true
	case 5:
		l.On = g.inParam("object")
		l.Object = true
	case 6:
		n := s.N(max + 1)
		l.On = Lit(n)
		l.MayBeEmpty = n == 0
	case 7:
		n := s.N(max + 1)
		l.On = Lit(fmt.Sprint(n))
		l.MayBeEmpty = n == 0
	case 8:
		// what an activity before produced
		for _, id := range sortedKeys(g.cert[t.ID]) {
			a := g.g.task(id)
			if g.cert[t.ID][id] != 1 {
				continue
			}
			if _, ok := a.sureOut(""); !ok {
				continue
			}
			for _, o := range a.Outs {
				if o.When != 0 {
					continue
				}
				if o.Name == "arr" {
					l.On = ActRef(id, "arr")
					l.Object = false
					if o.Kind == "typed" {
						l.MayBeEmpty = o.V == "none"
						if o.V == "objs" {
							l.Fields = []string{"x", "y"}
						}
					}
				} else if o.Name == "o" && o.Kind == "lit" {
					l.On = ActRef(id, "o")
					l.Object, l.MayBeEmpty, l.Fields = true, false, nil
				}
			}
			if l.On != nil {
				return l
			}
		}
		l.On = g.inParam("array")
		l.MayBeEmpty = true
	}
	if g.p.OnProbe > 0 && !l.Object && s.P(g.p.OnProbe) && g.mayFail(t) {
		var e *Expr
		switch s.N(4) {
		case 0:
			e = Fn("fail", Lit(g.nextTok()))
		case 1:
			e = ActRef("nosuch", "arr")
		case 2:
			e = Lit(true)
		default:
			e = Lit("notanumber")
		}
		l.OnLit = nil
		l.Fields = nil
		l.On = Fn("seq", probeExpr("T", t.ID, nil), e)
		l.Form = s.N(2) // not a setting of its own
		l.MayBeEmpty = false
	}
	return l
}

// loopCond generates a do-while condition that becomes false
func (g *gctx) loopCond(t *Task) *Expr {
	s, p := g.s, g.p
	max := p.MaxIter
	if t.Sub > 0 && max > 3 {
		max = 3
	}
	n := s.N(max)
	var e *Expr
	if t.Sub == 0 && s.P(50) {
		e = Op("<", ActRef(t.ID, "i"), Lit(n))
	} else {
		e = Op(s.Str("<", "!="), IterRef("index"), Lit(n))
	}
	if s.P(20) {
		e = Op("&&", e, Op(">=", Op("+", g.inParam("integer"), Lit(1)), Lit(s.N(3))))
	}
	if s.P(p.CondFail) && g.mayFail(t) {
		e = [](func() *Expr){
			func() *Expr { return Fn("fail", Lit(g.nextTok())) },
			func() *Expr { return Lit("perhaps") },
			func() *Expr { return FlowRef("nosuch") },
		}[s.N(3)]()
	}
	return e
}

// script generates the failures of an activity; tells if it may fail
func (g *gctx) script(t *Task) bool {
	s, p := g.s, g.p
	beh := func(kind string) Beh {
		b := Beh{Kind: kind, Tok: g.nextTok()}
		if t.Sub == 0 && s.P(p.Junk) {
			b.Junk = s.Str("val", "tag", "in")
		}
		if kind == "retriable" || kind == "err" {
			b.Code = s.Str("", "c1", "500")
			switch s.N(4) {
			case 1:
				b.Data = s.Str("d", "")
			case 2:
				b.Data = map[string]interface{}{"x": s.N(5)}
			case 3:
				b.Data = s.N(50)
			}
		}
		return b
	}
	failKind := func() string {
		if s.P(p.Panic) {
			return s.Str("panic", "nilpanic")
		}
		return s.Str("err", "plain", "retriable")
	}
	lead := 0
	if t.Loop != nil {
		lead = s.N(3)
	}
	for i := 0; i < lead; i++ {
		t.Script = append(t.Script, Beh{Kind: "ok"})
	}
	if s.P(p.Retry) {
		cnt := s.N(4)
		t.Retry = &Retry{Count: cnt}
		if s.P(25) && t.Loop == nil {
			t.Retry.CountE = Op("+", g.inParam("integer"), Lit(0))
			cnt = 1
		}
		if s.P(20) {
			t.Retry.Interval = 1
		}
		nf := s.N(cnt + 2)
		if s.P(6) && g.mayFail(t) {
			// cannot be evaluated
			switch s.N(4) {
			case 0:
				t.Retry.CountE = Fn("fail", Lit(g.nextTok()))
			case 1:
				t.Retry.CountE = Lit("many")
			case 2:
				t.Retry.CountE = FlowRef("nosuch")
			default:
				t.Retry.IntervE = Fn("fail", Lit(g.nextTok()))
			}
		} else if s.P(6) {
			t.Retry.IntervE = Op("-", Lit(2), Lit(2))
		}
		for i := 0; i < nf; i++ {
			t.Script = append(t.Script, beh("retriable"))
		}
		if nf > 0 && nf <= cnt && t.Loop != nil {
			// other executions of the loop fail too
			for s.P(40) {
				for i := s.N(2); i >= 0; i-- {
					t.Script = append(t.Script, Beh{Kind: "ok"})
				}
				for i := s.N(cnt); i >= 0; i-- {
					t.Script = append(t.Script, beh("retriable"))
				}
			}
		}
		if t.Retry.CountE == nil && nf > cnt && !g.mayFail(t) {
			t.Script = t.Script[:lead+cnt]
		} else if t.Retry.CountE != nil && !g.mayFail(t) {
			t.Script = t.Script[:lead]
		} else if s.P(25) && g.mayFail(t) {
			t.Script = append(t.Script, beh(failKind()))
		}
	} else if s.P(p.Fail) && g.mayFail(t) {
		t.Script = append(t.Script, beh(failKind()))
	}
	if len(t.Script) == lead {
		t.Script = nil
		return false
	}
	if g.fi > 0 && s.P(50) {
		t.FirstOnly = true
	}
	return true
}

// special: return, reply and assignment of flow outputs
func (g *gctx) special(t *Task) {
	s, p := g.s, g.p
	b := Beh{Kind: "ok"}
	use := false
	if len(g.f.Out) > 0 && s.P(p.SetOut) {
		b.Set = map[string]interface{}{}
		for i, n := 0, 1+s.N(2); i < n; i++ {
			o := g.f.Out[s.N(len(g.f.Out))]
			if o.Name[0] == 'r' {
				b.Set[o.Name] = genLitOf(s, "any")
				if s.P(15) {
					b.Set[o.Name] = nil // not the same as not assigned
				}
			}
		}
		if p.Terminals >= 0 {
			b.Set = nil // assigned by parallel activities in any order
		} else {
			use = true
		}
	}
	top := g.fi == 0 && g.f.rec == "" // a flow that calls itself is a subflow as well
	if s.P(p.Return) && (g.p.Terminals < 0 || g.terminal()) {
		b.Ret = map[string]interface{}{}
		for _, o := range g.f.Out {
			if s.P(70) {
				b.Ret[o.Name] = genLitOf(s, "any")
			}
		}
		if top && s.P(10) {
			b.Ret["extra"] = "x"
		}
		if top && s.P(p.RetErr) {
			b.RetEr = "returned " + g.nextTok()
		}
		t.FirstOnly = g.fi > 0 && s.P(50)
		use = true
	}
	if top && s.P(p.Reply) {
		b.Reply = map[string]interface{}{"reply": g.nextTok()}
		use = true
	}
	if use {
		t.Script = []Beh{b}
	}
}

func (t *Task) returns() bool {
	for _, b := range t.Script {
		if b.Ret != nil {
			return true
		}
	}
	return false
}

func (g *gctx) maps(t *Task, fails bool) {
	s, p := g.s, g.p
	var key *Expr
	if t.Loop != nil && t.Loop.Object {
		key = IterRef("key")
	}
	risky := s.P(p.Risky) && !(t.Loop != nil && usesProbe(t.Loop.On)) && !(t.Retry != nil && p.Terminals >= 0)
	if t.Sub > 0 {
		e := probeExpr("S", t.ID, key)
		if risky {
			e = Fn("seq", probeExpr("T", t.ID, key), g.risky(t), e)
		}
		t.Maps = append(t.Maps, &Mapping{Name: "pid", E: e})
		for _, pr := range g.cs.Flows[t.Sub-1].In {
			if !s.P(50) {
				continue
			}
			g.typedMap(t, pr.Name, pr.Type, true)
		}
		return
	}
	t.Maps = append(t.Maps, &Mapping{Name: "pid", E: FlowRef("pid")}, &Mapping{Name: "pt", Lit: t.ID, Want: t.ID})
	if key != nil {
		t.Maps = append(t.Maps, &Mapping{Name: "k", E: key})
	}
	if risky {
		args := []*Expr{g.risky(t)}
		for s.P(40) {
			args = append(args, g.risky(t))
			if len(args) > 3 {
				break
			}
		}
		t.Maps = append(t.Maps, &Mapping{Name: "a", E: Fn("seq", probeExpr("T", t.ID, key), Fn("list", args...))})
	} else if s.P(70) {
		t.Maps = append(t.Maps, &Mapping{Name: "a", E: g.safe(t)})
	}
	for i := 0; i < p.Maps; i++ {
		if !s.P(60) {
			continue
		}
		switch s.N(4) {
		case 0:
			if !hasMap(t, "b") {
				t.Maps = append(t.Maps, &Mapping{Name: "b", E: g.safe(t)})
			}
		case 1:
			if !hasMap(t, "c") {
				o := map[string]*Expr{"x": g.safe(t), "y": g.safe(t)}
				t.Maps = append(t.Maps, &Mapping{Name: "c", Obj: o})
			}
		default:
			x := []struct{ n, t string }{{"s", "string"}, {"i", "integer"}, {"n", "number"}, {"q", "boolean"}, {"o", "object"}, {"arr", "array"}}[s.N(6)]
			if !hasMap(t, x.n) {
				g.typedMap(t, x.n, x.t, false)
			}
		}
	}
}

func hasMap(t *Task, n string) bool {
	for _, m := range t.Maps {
		if m.Name == n {
			return true
		}
	}
	return false
}

// typedMap maps a value of the type
func (g *gctx) typedMap(t *Task, name, typ string, sub bool) {
	s := g.s
	m := &Mapping{Name: name}
	t.Maps = append(t.Maps, m)
	if typ == "any" {
		if s.P(50) {
			m.E = g.safe(t)
			if sub && m.E.Find(func(e *Expr) bool { return e.K == "err" || e.K == "flow" && e.Name[0] == 'u' }) {
				m.E = Lit("x") // may be nil
			}
			return
		}
		m.Lit = genLitOf(s, "any")
		m.Want = m.Lit
		return
	}
	if s.P(40) {
		if e := g.inParam(typ); e != nil {
			m.E = e
			return
		}
	}
	if sub || s.P(40) {
		m.Lit = genLitOf(s, typ)
		if typ == "number" {
			m.Lit = 1.25
		}
		if typ == "string" && (m.Lit == "=not") {
			m.Lit = "not"
		}
		m.Want = m.Lit
		return
	}
	// literals of other types are converted
	switch typ {
	case "string":
		x := [][2]interface{}{{5, "5"}, {true, "true"}, {"s", "s"}, {2.5, "2.5"}}[s.N(4)]
		m.Lit, m.Want = x[0], x[1]
	case "integer":
		x := [][2]interface{}{{5, 5}, {"7", 7}, {true, 1}, {3.0, 3}}[s.N(4)]
		m.Lit, m.Want = x[0], x[1]
	case "number":
		x := [][2]interface{}{{5, 5}, {"7.5", 7.5}, {0.5, 0.5}}[s.N(3)]
		m.Lit, m.Want = x[0], x[1]
	case "boolean":
		x := [][2]interface{}{{true, true}, {"true", true}, {"false", false}, {1, true}, {0, false}}[s.N(5)]
		m.Lit, m.Want = x[0], x[1]
	case "object":
		x := [][2]interface{}{{map[string]interface{}{"p": 1}, map[string]interface{}{"p": 1}}, {`{"p":[1,"x"]}`, map[string]interface{}{"p": []interface{}{1, "x"}}}}[s.N(2)]
		m.Lit, m.Want = x[0], x[1]
	case "array":
		x := [][2]interface{}{{[]interface{}{1, "b"}, []interface{}{1, "b"}}, {`["x",2]`, []interface{}{"x", 2}}}[s.N(2)]
		m.Lit, m.Want = x[0], x[1]
	}
}
