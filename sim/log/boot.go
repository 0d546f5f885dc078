//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"flychain/log"
	"flychain/zzverifsim/kit"
	"flychain/zzverifsim/log/alpha"
)

// C18: logging before the program configures logging. Every run is a fresh
// process.
//
//	op "log": A id, B stall, N: 0-2 level, 3-4 how (package functions, root,
//	child made at start, child made now)
//	op "set": A handler, B stall
func init() {
	kit.Register(&kit.Prop{ID: "C18", Slow: true, Steps: 200, Once: true, Gen: bootGen, Exec: bootExec})
}

var (
	prBefore = kit.Ctr("probe.logged_before_configuration")
	prDuring = kit.Ctr("probe.logged_during_configuration")
	prAfter  = kit.Ctr("probe.logged_after_configuration")
)

func bootGen(g *kit.Gen) {
	if g.P(1, 2) {
		// The very first records, from several places at once.
		n := g.Range(2, 4)
		g.Set("clients", int64(n))
		g.Set("first", 1)
		g.Set("text", g.Pick(fmtLogfmt, fmtTerm, fmtTerm, fmtTermColour, fmtJSONOrdered))
		g.Set("origins", 1)
		g.Op(50, "set", int64(g.N(3)), 0)
		id := int64(1)
		for c := 0; c < n; c++ {
			for k := g.Range(1, 2); k > 0; k-- {
				g.Op(c, "log", id, 0, int64(g.Range(1, 5)|g.N(6)<<3))
				id++
			}
		}
		return
	}
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	id := int64(1)
	for c := 0; c < n; c++ {
		for k := g.Range(1, 5); k > 0; k-- {
			g.Op(c, "log", id, int64(g.N(8)), int64(g.Range(1, 5)|g.N(6)<<3))
			id++
		}
	}
	for k := g.Range(0, 2); k > 0; k-- {
		g.Op(50, "set", int64(g.N(3)), int64(g.N(14)))
	}
	g.Set("text", g.Pick(0, 0, fmtLogfmt, fmtTerm, fmtTermColour, fmtJSON))
	g.Set("origins", g.Pick(0, 1, 1))
}

func bootExec(r *kit.Run) {
	cfgs = nil
	cfgs = append(cfgs, &regWrite{reg: regSwap, op: kit.Op{A: -1}})
	early := log.New("early", 1)
	text := r.P("text")
	if text != 0 && r.P("origins") != 0 {
		log.PrintOrigins(true)
	}
	handler := func(n int64) log.Handler {
		if text == 0 {
			return &filtSink{n}
		}
		// Two streams, so that records are formatted at the same time.
		var hs [2]log.Handler
		for i := range hs {
			hs[i] = log.StreamHandler(&stream{r: r, n: n}, format(text))
		}
		return log.FuncHandler(func(rec *log.Record) error { return hs[idOf(rec.Msg)&1].Log(rec) })
	}
	configured := make(chan struct{})
	r.Go("main", func() {
		defer close(configured)
		for _, o := range r.Ops(50) {
			stallQuiet(o.B)
			w := cfgBegin(regSwap, o)
			log.Root().SetHandler(handler(o.A))
			w.end()
		}
		kit.Publish()
	})
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		r.Go("client", func() {
			if r.P("first") == 1 {
				<-configured
			}
			for _, o := range ops {
				stall(o.B)
				ctx := []interface{}{"id", int(o.A)}
				guarded(o.A, func() error {
					switch o.N >> 3 {
					case 0:
						alpha.Root(o.N&7, msgOf(o.A), ctx)
					case 1:
						logAt(log.Root(), o.N&7, msgOf(o.A), ctx)
					case 2:
						logAt(early, o.N&7, msgOf(o.A), ctx)
					case 3:
						logAt(log.New("late", 2), o.N&7, msgOf(o.A), ctx)
					case 4:
						alpha.Deep(o.N&7, int(o.A&1), msgOf(o.A), ctx)
					default:
						if h := log.Root().GetHandler(); h == nil {
							r.Violate("handler", "the root logger has no handler")
						} else {
							return h.Log(&log.Record{Time: time.Now(), Lvl: log.Lvl(o.N & 7), Msg: msgOf(o.A), Ctx: ctx, KeyNames: keyNames})
						}
					}
					return nil
				})
			}
			kit.Publish()
		})
	}
	if !r.Drain() || !r.MustEnd("logging around the initial configuration") {
		return
	}
	for c := 0; c < int(r.P("clients")); c++ {
		for _, o := range r.Ops(c) {
			cl, l := callOf(o.A), gotsOf(o.A)
			if cl.panicked {
				r.Violate("panic", "logging record %d before or during configuration panicked: %s", o.A, cl.pv)
				return
			}
			if cl.err != nil {
				r.Violate("error", "logging record %d failed: %v", o.A, cl.err)
				return
			}
			cs := candidates(regSwap, cl.inv, cl.ret)
			may := map[int64]bool{}
			for _, w := range cs {
				may[w.A] = true
			}
			switch {
			case len(cs) > 1:
				kit.Hit(prDuring)
			case may[-1]:
				kit.Hit(prBefore)
			default:
				kit.Hit(prAfter)
			}
			if len(l) > 1 {
				r.Violate("count", "record %d was delivered %d times", o.A, len(l))
				return
			}
			if len(l) == 0 {
				if !may[-1] {
					r.Violate("lost", "record %d was lost although a handler was set before it was logged", o.A)
					return
				}
				continue
			}
			if !may[l[0].sink] {
				r.Violate("handler", "record %d went to handler %d, which was not set", o.A, l[0].sink)
				return
			}
			if text != 0 {
				if t := l[0].text; !strings.HasSuffix(t, "\n") || strings.Count(t, msgOf(o.A)) != 1 || !strings.Contains(t, lvlNames[o.N&7]) && !strings.Contains(t, lvlAligned[o.N&7]) {
					r.Violate("content", "record %d was written as %q", o.A, t)
					return
				}
				continue
			}
			if l[0].msg != msgOf(o.A) || int64(l[0].lvl) != o.N&7 || fmt.Sprint(l[0].ctx[len(l[0].ctx)-2:]) != fmt.Sprint([]interface{}{"id", int(o.A)}) {
				r.Violate("content", "record %d arrived as %q %v", o.A, l[0].msg, l[0].ctx)
				return
			}
		}
	}
}
