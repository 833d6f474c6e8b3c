package main

// simulate runs the model alone, in some legal order, for at most max steps;
// it tells how many steps the run takes and whether it ends.
func simulate(cs *Case, max int) (m *Model, ended bool) {
	m = NewModel(cs, "S", false)
	m.Start()
	var next func(c *Cont) *TI
	next = func(c *Cont) *TI {
		for _, id := range sortedKeys(c.ti) {
			ti := c.ti[id]
			switch {
			case ti.state == tsEnabled || ti.post:
				return ti
			case ti.state == tsSub && ti.child != nil:
				if x := next(ti.child); x != nil {
					return x
				}
			}
		}
		return nil
	}
	for m.viol == "" && m.steps <= max {
		if m.root.status != csActive {
			return m, true
		}
		ti := next(m.root)
		if ti == nil {
			m.fail("model: nothing is left to do but the run has not ended")
			break
		}
		c := ti.c
		if ti.post {
			ti.postEval()
			continue
		}
		var key interface{}
		if ti.t.Loop != nil && ti.t.Loop.Object {
			if !ti.iterInit && !ti.initIter() {
				c.check()
				continue
			}
			for i, it := range ti.items {
				if !ti.used[i] {
					key = it.k
					break
				}
			}
		}
		if !ti.prepare(key) {
			c.check()
			continue
		}
		in, ee := ti.expected()
		switch {
		case ee != nil:
			ti.failedExec(c.newErr(ti.t, ee.Tok))
		case ti.t.Sub > 0:
			m.beginSub(ti, key)
			continue
		default:
			beh, outs := ti.beginExec(in)
			ti.endExec(beh, outs)
			continue
		}
		c.check()
	}
	return m, m.viol == "" && m.root.status != csActive
}
