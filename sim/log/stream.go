//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"flychain/log"
	"flychain/zzverifsim/kit"
)

// C13: handlers over a byte stream under concurrent use and sink faults.
//
//	op "log": A id, B stall, N: bits 0-2 level, 3 through a logger, 4 value that
//	cannot be formatted, 5 deferred value, 6-7 size, 8-11 sink fault, 12.. sink
func init() {
	kit.Register(&kit.Prop{ID: "C13", Slow: true, Steps: 900, Gen: streamGen, Exec: streamExec})
}

var (
	prLazyC13 = kit.Ctr("probe.deferred_value")
	prOverlap = kit.Ctr("probe.concurrent_log_calls")
)

func streamGen(g *kit.Gen) {
	if twinGen(g) {
		return
	}
	g.Set("fmt", int64(g.N(nFmt)))
	g.Set("sync", g.Pick(0, 0, 0, 1))
	sinks := g.Range(1, 3)
	g.Set("sinks", int64(sinks))
	g.Set("slow", g.Pick(0, 0, 1, 4))
	n := g.Range(2, 4)
	g.Set("clients", int64(n))
	g.Set("faults", g.Pick(0, 1))
	huge := int64(1)
	if g.P(1, 12) {
		huge = 3
	}
	id := int64(1)
	for c := 0; c < n; c++ {
		k := g.Range(1, 4)
		for i := 0; i < k; i++ {
			f := int64(g.Range(1, 5))
			if g.P(1, 2) {
				f |= 8
			}
			if g.P(1, 5) {
				f |= 32
			}
			if g.P(1, 6) {
				f |= g.Pick(1, 2, huge) << 6
			}
			if g.Plan.P["faults"] != 0 && g.P(1, 3) {
				f |= int64(g.Range(1, 4)) << 8
				if g.P(1, 3) {
					f |= 16
				}
			}
			st := int64(0)
			if g.P(1, 4) {
				st = int64(g.N(6))
			}
			g.Op(c, "log", id, st, f|int64(g.N(sinks))<<12)
			id++
		}
	}
}

// bulk is a value of the given size class: none, some lines, more than a page,
// more than the largest datagram.
func bulk(id, class int64) string {
	n := []int64{0, 200 + id%97, 4096 + id%1031, 65536 + id}[class]
	return strings.Repeat("bulk"+strings.Repeat("x", int(id%7)), 1+int(n/4))[:n]
}

// runKey is a context key no other run uses.
func runKey(r *kit.Run) string { return fmt.Sprintf("k%010x", r.Plan.Index&0xffffffffff) }

func streamExec(r *kit.Run) {
	if r.P("twin") == 1 {
		twinExec(r, "stream")
		return
	}
	f := r.P("fmt")
	fm := format(f)
	n := int(r.P("sinks"))
	hs := make([]log.Handler, n)
	lgs := make([]log.Logger, n)
	for i := range hs {
		w := &stream{r: r, n: int64(i), slow: r.P("slow")}
		if r.P("sync") == 1 {
			hs[i] = log.SyncHandler(log.LazyHandler(log.FuncHandler(func(rec *log.Record) error {
				_, err := w.Write(fm.Format(rec))
				return err
			})))
		} else {
			hs[i] = log.StreamHandler(w, fm)
		}
		lgs[i] = log.New()
		lgs[i].SetHandler(hs[i])
	}
	key := runKey(r)
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		for _, o := range ops {
			setFault(o.A, o.N>>8&15)
		}
		who := fmt.Sprintf("c%d", c)
		r.Go(who, func() {
			for _, o := range ops {
				stall(o.B)
				h, lg := hs[o.N>>12], lgs[o.N>>12]
				var val interface{} = "v" + who
				if o.N&32 != 0 {
					kit.Hit(prLazyC13)
					val = log.Lazy{Fn: func() string { kit.Yield(); return "v" + who }}
				}
				ctx := []interface{}{"id", int(o.A), "who", who, key, val}
				if b := bulk(o.A, o.N>>6&3); b != "" {
					ctx = append(ctx, "bulk", b)
				}
				if o.N&16 != 0 {
					kit.Hit(prValPan)
					ctx = append(ctx, "bomb", bomb{})
				}
				guarded(o.A, func() error {
					if o.N&8 == 0 {
						rec := &log.Record{Time: time.Unix(1700000000+o.A, 5e6*o.A).UTC(), Lvl: log.Lvl(o.N & 7), Msg: msgOf(o.A), Ctx: ctx, KeyNames: keyNames}
						return h.Log(rec)
					}
					switch o.N & 7 {
					case 1:
						lg.Error(msgOf(o.A), ctx...)
					case 2:
						lg.Warn(msgOf(o.A), ctx...)
					case 3:
						lg.Info(msgOf(o.A), ctx...)
					case 4:
						lg.Debug(msgOf(o.A), ctx...)
					default:
						lg.Trace(msgOf(o.A), ctx...)
					}
					return nil
				})
			}
			kit.Publish()
		})
	}
	if !r.Drain() {
		return
	}
	if !r.MustEnd("after the sink's faults are over") {
		return
	}
	over := false
	for i, a := range calls {
		for _, b := range calls[i+1:] {
			over = over || a.inv < b.ret && b.inv < a.ret
		}
	}
	if over {
		kit.Hit(prOverlap)
	}
	for c := 0; c < int(r.P("clients")); c++ {
		who := fmt.Sprintf("c%d", c)
		for _, o := range r.Ops(c) {
			l, cl := gotsOf(o.A), callOf(o.A)
			if o.N&16 != 0 {
				if len(l) > 1 {
					r.Violate("duplicate", "record %d was written %d times", o.A, len(l))
				}
				continue
			}
			if len(l) != 1 {
				r.Violate("count", "record %d was written %d times", o.A, len(l))
				return
			}
			if l[0].sink != o.N>>12 {
				r.Violate("content", "record %d was written to the wrong stream", o.A)
				return
			}
			wt := want{lvl: log.Lvl(o.N & 7), msg: msgOf(o.A), pairs: [][2]string{{"id", fmt.Sprint(o.A)}, {"who", who}, {key, "v" + who}}}
			if b := bulk(o.A, o.N>>6&3); b != "" {
				wt.pairs = append(wt.pairs, [2]string{"bulk", b})
			}
			if o.N&8 == 0 {
				wt.t = time.Unix(1700000000+o.A, 5e6*o.A).UTC()
			}
			if err := checkText(f, l[0].text, wt); err != nil {
				r.Violate("content", "record %d was written as %q: %v", o.A, l[0].text, err)
				return
			}
			switch fl := o.N >> 8 & 15; {
			case fl == sfPanic:
			case cl.panicked:
				r.Violate("panic", "logging record %d panicked: %s", o.A, cl.pv)
			case o.N&8 != 0:
			case fl == sfOK && cl.err != nil:
				r.Violate("error", "logging record %d returned %v although its write succeeded", o.A, cl.err)
			case fl == sfErr || fl == sfShortErr:
				if cl.err != l[0].err {
					r.Violate("error", "logging record %d returned %v, its write failed with %v", o.A, cl.err, l[0].err)
				}
			}
		}
	}
	for _, g := range gots {
		if callOf(g.id) == nil {
			r.Violate("count", "something that is no record was written: %q", g.text)
		}
	}
	for i := range hs {
		checkOrder(r, int64(i), "stream handler")
	}
}
