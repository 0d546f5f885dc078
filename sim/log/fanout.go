//go:build go1.22

package main

import (
	"fmt"

	"flychain/log"
	"flychain/zzverifsim/kit"
)

// C15: failover and fan-out. Sinks fail individual records (op "fail") and go
// down and come back (client "outage").
//
//	op "log":  A id, B stall, N: bits 0-2 level, 3 through a logger
//	op "fail": A id, B sink
//	op "down"/"up": A sink, B stall
func init() {
	kit.Register(&kit.Prop{ID: "C15", Slow: true, Steps: 300, Gen: fanGen, Exec: fanExec})
}

var (
	prOutage  = kit.Ctr("fault.sink_outage")
	prAllFail = kit.Ctr("probe.every_sink_failed")
	prFailed  = kit.Ctr("probe.failed_over")
)

const (
	fanFailover = iota
	fanMulti
	fanFailMulti
	fanMultiFail
	fanFailFail
	nFan
)

func fanGen(g *kit.Gen) {
	if twinGen(g) {
		return
	}
	g.Set("tree", g.Pick(0, 0, 0, 1, 2, 3, 4))
	k := g.Range(1, 4)
	if g.P(1, 8) {
		k = g.Range(5, 12)
	}
	g.Set("sinks", int64(k))
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	id := int64(1)
	for c := 0; c < n; c++ {
		m := g.Range(1, 5)
		for i := 0; i < m; i++ {
			f := int64(g.Range(1, 5))
			if g.P(1, 3) {
				f |= 8
			}
			st := int64(0)
			if g.P(1, 3) {
				st = int64(g.N(8))
			}
			for s := 0; s < max(4, k); s++ {
				if g.P(1, 4) || k > 4 && g.P(2, 3) {
					g.Op(98, "fail", id, int64(s))
				}
			}
			if g.P(1, 8) {
				for s := 0; s < max(4, k); s++ {
					g.Op(98, "fail", id, int64(s))
				}
			}
			g.Op(c, "log", id, st, f)
			id++
		}
	}
	for i := g.N(5); i > 0; i-- {
		g.Op(99, []string{"down", "up"}[g.N(2)], int64(g.N(k)), int64(g.N(12)))
	}
}

var (
	fanDown [16]bool
	fanFail [][2]int64
)

//go:norace
func fanIsDown(s int64) bool { return fanDown[s] }

//go:norace
func fanSetDown(s int64, v bool) { fanDown[s] = v }

type fanSink struct{ n int64 }

func (s *fanSink) Log(r *log.Record) error {
	g := capture(s.n, r)
	kit.Yield()
	fail := fanIsDown(s.n)
	for _, f := range fanFail {
		fail = fail || f[0] == g.id && f[1] == s.n
	}
	kit.Yield()
	if fail {
		kit.Hit(prSinkErr)
		e := mkErr(g.id, s.n)
		g.finish(e)
		return e
	}
	g.finish(nil)
	return nil
}

type fnode struct {
	multi bool
	leaf  int64
	kids  []*fnode
}

func (n *fnode) build() log.Handler {
	if n.kids == nil {
		return &fanSink{n.leaf}
	}
	var hs []log.Handler
	for _, k := range n.kids {
		hs = append(hs, k.build())
	}
	if n.multi {
		return log.MultiHandler(hs...)
	}
	return log.FailoverHandler(hs...)
}

func leaves(a, b int64) []*fnode {
	var l []*fnode
	for ; a < b; a++ {
		l = append(l, &fnode{leaf: a})
	}
	return l
}

type fanEval struct {
	visits []*got
	ctx    []interface{}
	shared bool // under a fan-out: additions made elsewhere may show
	bad    string
}

func (e *fanEval) run(n *fnode) error {
	if e.bad != "" {
		return nil
	}
	if n.kids == nil {
		if len(e.visits) == 0 {
			e.bad = fmt.Sprintf("never reached handler %d", n.leaf)
			return nil
		}
		g := e.visits[0]
		e.visits = e.visits[1:]
		if g.sink != n.leaf {
			e.bad = fmt.Sprintf("reached handler %d where handler %d was next", g.sink, n.leaf)
			return nil
		}
		if !e.shared && fmt.Sprint(g.ctx...) != fmt.Sprint(e.ctx...) {
			e.bad = fmt.Sprintf("reached handler %d with context %v, want %v", n.leaf, g.ctx, e.ctx)
		}
		if g.err == nil {
			return nil
		}
		return g.err
	}
	if n.multi {
		for _, k := range n.kids {
			e.run(k)
		}
		return nil
	}
	var err error
	for i, k := range n.kids {
		if err = e.run(k); err == nil || e.bad != "" {
			return nil
		}
		e.ctx = append(e.ctx, fmt.Sprintf("failover_err_%d", i), err)
	}
	return err
}

func fanExec(r *kit.Run) {
	if r.P("twin") == 1 {
		twinExec(r, "fan")
		return
	}
	k := r.P("sinks")
	fanDown = [16]bool{}
	fanFail = nil
	for _, o := range r.Ops(98) {
		fanFail = append(fanFail, [2]int64{o.A, o.B})
	}
	var tree *fnode
	two := func(m1, m2 bool) *fnode {
		return &fnode{multi: m1, kids: append([]*fnode{{multi: m2, kids: leaves(0, 2)}}, leaves(2, 4)...)}
	}
	switch r.P("tree") {
	case fanFailover:
		tree = &fnode{kids: leaves(0, k)}
	case fanMulti:
		tree = &fnode{multi: true, kids: leaves(0, k)}
	case fanFailMulti:
		tree = two(false, true)
	case fanMultiFail:
		tree = two(true, false)
	default:
		tree = two(false, false)
	}
	shared := r.P("tree") != fanFailover && r.P("tree") != fanFailFail
	h := tree.build()
	lg := log.New()
	lg.SetHandler(h)
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		c := c
		r.Go("client", func() {
			for _, o := range ops {
				stall(o.B)
				logOp(h, lg, o, []interface{}{"id", int(o.A), "client", c})
			}
			kit.Publish()
		})
	}
	if ops := r.Ops(99); len(ops) > 0 {
		r.Go("outage", func() {
			for _, o := range ops {
				stallQuiet(o.B)
				if o.K == "down" {
					kit.Hit(prOutage)
				}
				fanSetDown(o.A, o.K == "down")
			}
		})
	}
	if !r.Drain() || !r.MustEnd("logging through failover and fan-out") {
		return
	}
	for c := 0; c < int(r.P("clients")); c++ {
		for _, o := range r.Ops(c) {
			cl := callOf(o.A)
			if cl.panicked {
				r.Violate("panic", "logging record %d panicked: %s", o.A, cl.pv)
				return
			}
			ctx := []interface{}{"id", int(o.A), "client", c}
			l := gotsOf(o.A)
			for _, g := range l {
				if err := checkRecord(g, cl, o, ctx, true); err != nil {
					r.Violate("content", "record %d at handler %d: %v", o.A, g.sink, err)
					return
				}
				if g.seq < cl.inv || g.seqEnd > cl.ret {
					r.Violate("order", "record %d was handled outside its logging call", o.A)
					return
				}
			}
			e := &fanEval{visits: l, ctx: ctx, shared: shared}
			err := e.run(tree)
			if e.bad == "" && len(e.visits) > 0 {
				e.bad = fmt.Sprintf("also reached handler %d", e.visits[0].sink)
			}
			if e.bad != "" {
				r.Violate("routing", "record %d %s", o.A, e.bad)
				return
			}
			if len(l) > 1 && !shared {
				kit.Hit(prFailed)
			}
			if err != nil {
				kit.Hit(prAllFail)
			}
			if o.N&8 == 0 && cl.err != err {
				r.Violate("error", "logging record %d returned %v, want %v", o.A, cl.err, err)
				return
			}
		}
	}
}
