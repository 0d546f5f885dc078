//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"runtime"
	"time"

	"flychain/log"
	"flychain/zzverifsim/kit"
)

// C14: asynchronous handlers.
//
//	op "log": A id, B stall, N: bits 0-2 level, 3 through a logger, 8.. sink fails
func init() {
	kit.Register(&kit.Prop{ID: "C14", Slow: true, Steps: 300, Gen: bufGen, Exec: bufExec})
}

var (
	prFull    = kit.Ctr("probe.buffer_full")
	prGate    = kit.Ctr("fault.sink_blocked")
	prBacklog = kit.Ctr("probe.backlog_drained_after_stall")
)

func bufGen(g *kit.Gen) {
	if twinGen(g) {
		return
	}
	g.Set("kind", g.Pick(0, 0, 0, 1))
	g.Set("buf", g.Pick(0, 1, 1, 2, 3, 4, 6))
	g.Set("gate", g.Pick(0, 1, 1))
	g.Set("slow", g.Pick(0, 0, 1, 2, 4, 6))
	n := g.Range(1, 4)
	g.Set("clients", int64(n))
	big := 0
	if g.P(1, 30) { // much room, and records to fill it
		big = g.Range(20, 300)
		g.Set("buf", int64(big))
		big = big/n + g.N(4)
	}
	id := int64(1)
	for c := 0; c < n; c++ {
		k := g.Range(1, 4)
		if big > 0 {
			k = big
		}
		for i := 0; i < k; i++ {
			f := int64(g.Range(1, 5))
			if g.P(1, 3) {
				f |= 8
			}
			if g.P(1, 4) {
				f |= 1 << 8
			}
			st := int64(0)
			if g.P(1, 3) && big == 0 {
				st = int64(g.N(8))
			}
			g.Op(c, "log", id, st, f)
			id++
		}
	}
}

// bufSink is the wrapped handler.
type bufSink struct {
	r     *kit.Run
	gate  chan struct{}
	slow  int64
	busy  bool
	plain int
}

//go:norace
func (s *bufSink) enter() {
	if s.busy {
		s.r.Violate("interleaved", "the wrapped handler was called again while it was still handling a record")
	}
	s.busy = true
}

//go:norace
func (s *bufSink) leave() { s.busy = false }

func (s *bufSink) Log(r *log.Record) error {
	if r.Msg == "poison" {
		runtime.Goexit()
	}
	s.enter()
	s.plain++
	g := capture(0, r)
	if s.gate != nil {
		<-s.gate
	}
	if s.slow > 0 {
		kit.Hit(prSinkSlow)
		stallQuiet(s.slow)
	}
	s.plain++
	s.leave()
	if faultOf(g.id) != 0 {
		kit.Hit(prSinkErr)
		e := mkErr(g.id, 0)
		g.finish(e)
		return e
	}
	g.finish(nil)
	return nil
}

func stallQuiet(n int64) {
	kit.Stall(n)
}

func logAt(lg log.Logger, lvl int64, msg string, ctx []interface{}) {
	switch lvl {
	case 1:
		lg.Error(msg, ctx...)
	case 2:
		lg.Warn(msg, ctx...)
	case 3:
		lg.Info(msg, ctx...)
	case 4:
		lg.Debug(msg, ctx...)
	default:
		lg.Trace(msg, ctx...)
	}
}

func recTime(id int64) time.Time { return time.Unix(1700000000+id, 5e6*id).UTC() }

// logOp performs one logging call of a client.
func logOp(h log.Handler, lg log.Logger, o kit.Op, ctx []interface{}) *call {
	return guarded(o.A, func() error {
		if o.N&8 == 0 {
			return h.Log(&log.Record{Time: recTime(o.A), Lvl: log.Lvl(o.N & 7), Msg: msgOf(o.A), Ctx: ctx, KeyNames: keyNames})
		}
		logAt(lg, o.N&7, msgOf(o.A), ctx)
		return nil
	})
}

// checkRecord compares a record as a handler saw it with what was logged.
func checkRecord(g *got, c *call, o kit.Op, ctx []interface{}, prefixOnly bool) error {
	if g.msg != msgOf(o.A) || g.lvl != log.Lvl(o.N&7) {
		return fmt.Errorf("message or level changed: %q %d", g.msg, g.lvl)
	}
	gc := g.ctx
	if prefixOnly && len(gc) > len(ctx) {
		gc = gc[:len(ctx)]
	}
	if !reflect.DeepEqual(gc, ctx) {
		return fmt.Errorf("context is %v, want %v", g.ctx, ctx)
	}
	if o.N&8 == 0 {
		if !g.t.Equal(recTime(o.A)) {
			return fmt.Errorf("time changed")
		}
	} else if w := g.t.UnixNano() - 1700000000*1e9 + int64(1)<<60; w < c.t0 || c.t1 != 0 && w > c.t1 {
		return fmt.Errorf("time is not that of the logging call")
	}
	return nil
}

func bufExec(r *kit.Run) {
	if r.P("twin") == 1 {
		twinExec(r, "buffered")
		return
	}
	s := &bufSink{r: r, slow: r.P("slow")}
	buf := int(r.P("buf"))
	gated := r.P("gate") == 1
	if gated {
		kit.Hit(prGate)
		s.gate = make(chan struct{})
	}
	var h log.Handler
	var recs chan *log.Record
	if r.P("kind") == 0 {
		h = log.BufferedHandler(buf, s)
	} else {
		recs = make(chan *log.Record, buf)
		h = log.ChannelHandler(recs)
		r.Go("reader", func() {
			if s.gate != nil {
				<-s.gate
			}
			for rec := range recs {
				if rec.Msg == "poison" {
					return
				}
				stallQuiet(s.slow)
				capture(0, rec).finish(nil)
			}
		})
	}
	lg := log.New()
	lg.SetHandler(h)
	ctxs := map[int64][]interface{}{}
	total := 0
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		for _, o := range ops {
			setFault(o.A, o.N>>8)
			ctxs[o.A] = []interface{}{"id", int(o.A), "client", c}
			total++
		}
		my := make([][]interface{}, len(ops))
		for i, o := range ops {
			my[i] = append([]interface{}(nil), ctxs[o.A]...)
		}
		r.Go("client", func() {
			for i, o := range ops {
				stall(o.B)
				logOp(h, lg, o, my[i])
			}
			kit.Publish()
		})
	}
	if !r.Drain() {
		return
	}
	if gated {
		ret := 0
		for _, c := range calls {
			if c.done {
				ret++
			}
		}
		lo, hi := buf, buf
		if r.P("kind") == 0 {
			hi++ // one more record is with the wrapped handler
			lo = hi
		}
		if lo > total {
			lo = total
		}
		if hi > total {
			hi = total
		}
		if ret < lo {
			r.Violate("blocked", "with the wrapped handler blocked and room for %d records only %d of %d logging calls returned: %s", buf, ret, total, r.Stuck())
			return
		}
		if ret > hi {
			r.Violate("lost", "with the wrapped handler blocked and room for %d records %d logging calls returned", buf, ret)
			return
		}
		if ret < total {
			kit.Hit(prFull)
		}
		if ret > 1 {
			kit.Hit(prBacklog)
		}
		close(s.gate)
		if !r.Drain() {
			return
		}
	}
	r.Go("poison", func() { h.Log(&log.Record{Msg: "poison"}) })
	if !r.Drain() {
		return
	}
	if !r.MustEnd("after the wrapped handler is unblocked") {
		return
	}
	for c := 0; c < int(r.P("clients")); c++ {
		for _, o := range r.Ops(c) {
			l, cl := gotsOf(o.A), callOf(o.A)
			if len(l) != 1 {
				r.Violate("count", "record %d reached the wrapped handler %d times", o.A, len(l))
				return
			}
			if cl.panicked || cl.err != nil {
				r.Violate("error", "logging record %d failed: %v %s", o.A, cl.err, cl.pv)
				return
			}
			if err := checkRecord(l[0], cl, o, ctxs[o.A], false); err != nil {
				r.Violate("content", "record %d: %v", o.A, err)
				return
			}
		}
	}
	if len(gots) != total {
		r.Violate("count", "%d records reached the wrapped handler, %d were logged", len(gots), total)
	}
	checkOrder(r, 0, "asynchronous handler")
}
