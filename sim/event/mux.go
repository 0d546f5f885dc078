//go:build go1.22

package main

import (
	"runtime"
	"time"

	"flychain/event"
	"flychain/zzverifsim/kit"
)

// Observation kinds of the typed multiplexer. C is the simulated time.
const (
	muPostInv  = 20 // A value
	muPostRet  = 21 // A value, B outcome
	muSubInv   = 22 // A subscription, B types
	muSubRet   = 23 // A
	muUnsInv   = 24 // A
	muUnsRet   = 25 // A
	muRecv     = 26 // A subscription, B value, C event time
	muClosed   = 27 // A subscription: channel seen closed
	muStopInv  = 28
	muStopRet  = 29
	muBadType  = 30 // A subscription: an event of an unsubscribed type or unknown payload
	muUnsState = 31 // A subscription, B 1 if Closed() and channel closed after Unsubscribe
	muDupInv   = 32 // a subscription naming a type twice is requested
	muDupRet   = 33 // B 0 refused, 1 closed from the start, 2 accepted
)

// The event types: some differ in the pointer only, two share their name, and
// one is another's underlying type.
type (
	mev0 int64
	mev1 int64
	mev2 struct{ V int64 }
	mev3 struct{ V int64 }
)

const nMev = 8

var mevNamesake, mevNamesakeOf = func() (func(int64) any, func(any) (int64, bool)) {
	type mev0 int64
	return func(v int64) any { return mev0(v) }, func(d any) (int64, bool) { x, ok := d.(mev0); return int64(x), ok }
}()

func mkEvent(v int64) any {
	switch v % nMev {
	case 0:
		return mev0(v)
	case 1:
		return mev1(v)
	case 2:
		return mev2{v}
	case 3:
		return &mev3{v}
	case 4:
		return mevNamesake(v)
	case 5:
		return &mev2{v}
	case 6:
		return mev3{v}
	}
	return v
}

func evValue(d any) (v int64, ok bool) {
	switch x := d.(type) {
	case mev0:
		v, ok = int64(x), true
	case mev1:
		v, ok = int64(x), true
	case mev2:
		v, ok = x.V, true
	case *mev3:
		v, ok = x.V, true
	case *mev2:
		v, ok = x.V, true
	case mev3:
		v, ok = x.V, true
	case int64:
		v, ok = x, true
	default:
		v, ok = mevNamesakeOf(d)
	}
	return
}

func protos(mask int64) []any {
	var l []any
	for i := int64(0); i < nMev; i++ {
		if mask>>i&1 == 1 {
			l = append(l, mkEvent(i))
		}
	}
	return l
}

var (
	prMuxStale  = kit.Ctr("probe.mux_event_older_than_subscription")
	prMuxBlock  = kit.Ctr("probe.mux_cancel_while_delivery_blocked")
	prMuxStop   = kit.Ctr("probe.mux_stop_while_post_in_progress")
	prMuxStop2  = kit.Ctr("probe.mux_concurrent_stops")
	prMuxDup    = kit.Ctr("probe.mux_request_naming_a_type_twice")
	faWallJump  = kit.Ctr("fault.wall_clock_jump")
	faNoReader  = kit.Ctr("fault.subscriber_never_reads")
	muxBase     time.Time
	muxStopSeen bool
)

func now() int64 { return runtime.SimNow() }

func wallJump(d int64) {
	kit.Hit(faWallJump)
	runtime.SimWallJump(d)
}

func muxGen(stops bool) func(g *kit.Gen) {
	return func(g *kit.Gen) {
		posters := g.Range(1, 3)
		subs := g.Range(1, 4)
		crowd, marathon := false, false
		switch g.N(50) {
		case 0:
			crowd = true
			posters, subs = g.Range(1, 2), g.Range(9, 50)
			if g.P(1, 6) {
				subs = g.Range(50, 150)
			}
		case 1:
			marathon = true
			posters, subs = 1, g.Range(1, 2)
		}
		c, id := 0, int64(0)
		total := 0
		for p := 0; p < posters; p++ {
			n := g.Range(1, 4)
			if marathon {
				n = g.Range(50, 200)
			}
			for i := 0; i < n; i++ {
				st := int64(0)
				if g.P(1, 3) && !marathon {
					st = int64(g.N(12))
				}
				v := int64(p*1000+i+1)*nMev + int64(g.N(nMev))
				if g.P(1, 2) {
					v = int64(p*1000+i+1) * nMev // concentrate on one type
				}
				g.Op(c, "post", v, st)
				total++
				if g.P(1, 20) {
					g.Op(c, "dup", g.Pick(1, 1, 3, 5, 255, 2, 8, 9, 17, 16, 128, int64(g.Range(1, 255))), int64(g.N(8)), int64(g.N(10)))
				}
				if g.P(1, 12) {
					g.Op(c, "jump", g.Pick(-3600e9, 3600e9, -1e6, 1e6))
				}
			}
			c++
		}
		for s := 0; s < subs; s++ {
			rounds := g.Range(1, 3)
			if crowd {
				rounds = 1
			}
			for k := 0; k < rounds; k++ {
				mask := g.Pick(1, 1, 3, 5, 255, 2, 8, 9, 17, 16, 128, int64(g.Range(1, 255)))
				g.Op(c, "sub", id, mask, int64(g.N(10)))
				id++
				n := g.N(total + 2)
				if stops && g.P(1, 3) {
					n = g.N(2)
				}
				for i := 0; i < n; i++ {
					g.Op(c, "recv", int64(g.N(3)*g.N(5)))
				}
				switch {
				case g.P(1, 4):
					g.Op(c, "unsub2", int64(g.N(6)))
				case stops && g.P(1, 3):
					g.Op(c, "leave")
				default:
					g.Op(c, "unsub", int64(g.N(6)))
				}
			}
			c++
		}
		if stops && g.P(4, 5) {
			k := 1
			if g.P(1, 3) {
				k = 2
			}
			for i := 0; i < k; i++ {
				g.Op(c, "stop", int64(g.N(60)))
				if g.P(1, 2) {
					g.Op(c, "post", int64(9000+i)*nMev, 0)
				}
				if g.P(1, 2) {
					g.Op(c, "sub", id, 255, 0)
					id++
					g.Op(c, "recv", 0)
					g.Op(c, "unsub", 0)
				}
				c++
			}
		}
		if g.P(1, 5) {
			g.Set("same", 1)
		}
		g.Set("clients", int64(c))
		g.Set("subs", id)
	}
}

type muxSub struct {
	id     int64
	sub    *event.TypeMuxSubscription
	ending bool // Unsubscribe was called
}

var (
	muxSubs    []*muxSub
	muxStopped bool
)

//go:norace
func muxAdd(s *muxSub) { muxSubs[s.id] = s }

//go:norace
func muxEnding(s *muxSub) { s.ending = true }

// muxLive lists the subscriptions made so far that nobody is cancelling.
//
//go:norace
func muxLive() (l []*muxSub) {
	for _, s := range muxSubs {
		if s != nil && !s.ending {
			l = append(l, s)
		}
	}
	return l
}

//go:norace
func muxStop() { muxStopped = true }

// muxMust: s has to be closed now, as some Stop has returned.
//
//go:norace
func muxMust(s *muxSub) bool { return s != nil && muxStopped && !s.ending }

//go:norace
func (s *muxSub) get() *event.TypeMuxSubscription { return s.sub }

//go:norace
func (s *muxSub) isEnding() bool { return s.ending }

func muxExec(stops bool) func(r *kit.Run) {
	return func(r *kit.Run) {
		mux := new(event.TypeMux)
		muxSubs, muxStopped = make([]*muxSub, r.P("subs")+1), false
		muxBase = time.Now()
		nc := int(r.P("clients"))
		stop := make(chan struct{})
		postersLeft := make(chan struct{}, nc)
		np := 0
		for c := 0; c < nc; c++ {
			ops := r.Ops(c)
			if len(ops) == 0 {
				continue
			}
			poster := ops[0].K == "post" || ops[0].K == "jump"
			if poster {
				np++
			}
			r.Go("client", func() {
				muxClient(r, mux, ops, stop)
				if poster {
					postersLeft <- struct{}{}
				}
			})
		}
		if !r.Drain() {
			return
		}
		if !stops {
			if len(postersLeft) != np {
				r.Violate("stuck", "%d of %d posters never finish although every subscription is read or cancelled: %s", np-len(postersLeft), np, r.Stuck())
				return
			}
			close(stop)
			if !r.Drain() || !r.MustEnd("after every poster finished and every subscription was cancelled") {
				return
			}
			checkMux(r)
			return
		}
		close(stop)
		if !r.Drain() {
			return
		}
		r.Go("final stop", func() {
			kit.Log(muStopInv, 0, 0, now())
			mux.Stop()
			kit.Log(muStopRet, 0, 0, now())
		})
		if !r.Drain() || !r.MustEnd("after the multiplexer was stopped") {
			return
		}
		for _, s := range muxSubs {
			if s == nil {
				continue
			}
			if !s.sub.Closed() {
				r.Violate("closed", "subscription %d is not closed after the multiplexer was stopped", s.id)
				return
			}
			select {
			case ev, ok := <-s.sub.Chan():
				if ok {
					r.Violate("closed", "subscription %d delivered %v after the multiplexer was stopped", s.id, ev.Data)
					return
				}
			default:
				r.Violate("closed", "the channel of subscription %d is open after the multiplexer was stopped", s.id)
				return
			}
		}
		if err := mux.Post(mev0(nMev)); err != event.ErrMuxClosed {
			r.Violate("closed", "posting on a stopped multiplexer returned %v", err)
			return
		}
		checkMux(r)
	}
}

func muxClient(r *kit.Run, mux *event.TypeMux, ops []kit.Op, stop chan struct{}) {
	var cur *muxSub
	closed := func(s *muxSub, what string) {
		ok := int64(0)
		sub := s.get()
		if sub.Closed() {
			select {
			case _, open := <-sub.Chan():
				if !open {
					ok = 1
				}
			default:
			}
		}
		if ok == 0 {
			r.Violate("closed", "subscription %d is not closed after %s returned", s.id, what)
		}
	}
	for _, o := range ops {
		if muxMust(cur) {
			closed(cur, "Stop")
		}
		switch o.K {
		case "post":
			stall(o.B)
			kit.Log(muPostInv, o.A, 0, now())
			err := mux.Post(mkEvent(wireOf(r, o.A)))
			b := int64(0)
			if err == event.ErrMuxClosed {
				b = 1
			} else if err != nil {
				b = 2
			}
			kit.Log(muPostRet, o.A, b, now())
		case "jump":
			wallJump(o.A)
		case "dup":
			stall(o.N)
			l := protos(o.A)
			k := int(o.B>>1) % len(l)
			if o.B&1 == 0 {
				l = append(l, l[k])
			} else {
				l = append([]any{l[k]}, append(l[:k:k], append(l[k+1:], l[k])...)...)
			}
			kit.Hit(prMuxDup)
			kit.Log(muDupInv, 0, 0, now())
			res := int64(0)
			func() {
				defer func() { recover() }()
				sub := mux.Subscribe(l...)
				if res = 2; sub.Closed() {
					res = 1
				}
				sub.Unsubscribe()
			}()
			kit.Log(muDupRet, 0, res, now())
		case "stop":
			stall(o.A)
			live := muxLive()
			kit.Log(muStopInv, 0, 0, now())
			mux.Stop()
			kit.Log(muStopRet, 0, 0, now())
			muxStop()
			for _, s := range live {
				if !s.isEnding() {
					closed(s, "Stop")
				}
			}
		case "sub":
			stall(o.N)
			cur = &muxSub{id: o.A}
			kit.Log(muSubInv, o.A, o.B, now())
			cur.sub = mux.Subscribe(protos(o.B)...)
			kit.Log(muSubRet, o.A, 0, now())
			if muxAdd(cur); muxMust(cur) {
				closed(cur, "Subscribe on a stopped multiplexer")
			}
		case "recv":
			if cur == nil {
				continue
			}
			stall(o.A)
			select {
			case ev, ok := <-cur.sub.Chan():
				muxGot(r, cur, ev, ok)
			case <-stop:
			}
		case "leave":
			kit.Hit(faNoReader)
			kit.Publish()
			cur = nil
		case "unsub", "unsub2":
			if cur == nil {
				continue
			}
			stall(o.A)
			s := cur
			muxEnding(s)
			if o.K == "unsub2" {
				kit.Hit(prDblUns)
				done := make(chan struct{})
				r.Go("unsubscriber", func() {
					s.sub.Unsubscribe()
					close(done)
				})
				kit.Log(muUnsInv, s.id, 0, now())
				s.sub.Unsubscribe()
				kit.Log(muUnsRet, s.id, 0, now())
				closed(s, "Unsubscribe")
				<-done
			} else {
				kit.Log(muUnsInv, s.id, 0, now())
				s.sub.Unsubscribe()
				kit.Log(muUnsRet, s.id, 0, now())
				closed(s, "Unsubscribe")
			}
			s.sub.Unsubscribe()
			kit.Publish()
			cur = nil
		}
	}
	if cur == nil {
		return
	}
	for {
		select {
		case ev, ok := <-cur.sub.Chan():
			muxGot(r, cur, ev, ok)
			if !ok {
				kit.Publish()
				return
			}
		case <-stop:
			muxEnding(cur)
			cur.sub.Unsubscribe()
			kit.Publish()
			return
		}
	}
}

// wireOf is the value posted for v: one and the same for all events of a type
// if receipts are only to be counted.
func wireOf(r *kit.Run, v int64) int64 {
	if r.P("same") == 1 {
		return v % nMev
	}
	return v
}

func muxGot(r *kit.Run, s *muxSub, ev *event.TypeMuxEvent, ok bool) {
	if !ok {
		kit.Log(muClosed, s.id, 0, now())
		return
	}
	v, known := evValue(ev.Data)
	if !known {
		r.Violate("delivery", "subscription %d received an event that was never posted: %v", s.id, ev.Data)
		return
	}
	kit.Log(muRecv, s.id, v, int64(ev.Time.Sub(muxBase)))
}

func checkMux(r *kit.Run) {
	const inf = ^uint64(0)
	type span struct {
		inv, ret   uint64
		tinv, tret int64
		out        int64
	}
	posts := map[int64]*span{}
	var values []int64
	type subInfo struct {
		inv, ret, uinv, uret uint64
		tinv                 int64
		mask                 int64
		got                  []int64
		count                [nMev]int
		seen                 map[int64]int
		closedSeen           bool
	}
	subs := map[int64]*subInfo{}
	var ids []int64
	var stopInv, stopRet uint64 = inf, inf
	base := int64(1) << 60
	nstop := 0
	for _, e := range kit.Recs(-1) {
		switch e.Kind {
		case muPostInv:
			posts[e.A] = &span{inv: e.Seq, ret: inf, tinv: e.C - base, out: -1}
			values = append(values, e.A)
		case muPostRet:
			p := posts[e.A]
			p.ret, p.out, p.tret = e.Seq, e.B, e.C-base
		case muSubInv:
			subs[e.A] = &subInfo{inv: e.Seq, ret: inf, uinv: inf, uret: inf, tinv: e.C - base, mask: e.B, seen: map[int64]int{}}
			ids = append(ids, e.A)
		case muSubRet:
			subs[e.A].ret = e.Seq
		case muUnsInv:
			subs[e.A].uinv = e.Seq
		case muUnsRet:
			subs[e.A].uret = e.Seq
		case muDupRet:
			if e.B == 2 || e.B == 1 && stopInv == inf {
				r.Violate("misuse", "a subscription naming a type twice was accepted")
				return
			}
		case muStopInv:
			nstop++
			if stopInv == inf {
				stopInv = e.Seq
			} else if stopRet == inf {
				kit.Hit(prMuxStop2)
			}
		case muStopRet:
			if stopRet == inf {
				stopRet = e.Seq
			}
		case muClosed:
			s := subs[e.A]
			s.closedSeen = true
			if e.Seq < s.uinv && e.Seq < stopInv {
				r.Violate("closed", "the channel of subscription %d was closed although it was not cancelled and the multiplexer not stopped", e.A)
				return
			}
		case muRecv:
			s := subs[e.A]
			p := posts[e.B]
			if r.P("same") == 1 {
				// Any of the posts of that type.
				p = &span{ret: inf}
				p.inv, p.tinv = 0, -base
				delete(s.seen, e.B)
			}
			if p == nil {
				r.Violate("delivery", "subscription %d received event %d, which was never posted", e.A, e.B)
				return
			}
			if s.closedSeen {
				r.Violate("delivery", "subscription %d received event %d after its channel was closed", e.A, e.B)
				return
			}
			if r.P("same") == 1 {
				s.count[e.B%nMev]++
			}
			if s.mask>>(e.B%nMev)&1 == 0 {
				r.Violate("routing", "subscription %d (types %08b) received event %d of type %d", e.A, s.mask, e.B, e.B%nMev)
				return
			}
			if _, dup := s.seen[e.B]; dup {
				r.Violate("delivery", "subscription %d received event %d twice", e.A, e.B)
				return
			}
			s.seen[e.B] = len(s.got)
			s.got = append(s.got, e.B)
			if p.ret < s.inv {
				r.Violate("delivery", "subscription %d received event %d, posted before it existed", e.A, e.B)
				return
			}
			if p.inv > s.uret || p.inv > stopRet {
				r.Violate("delivery", "subscription %d received event %d, posted after it ended", e.A, e.B)
				return
			}
			if e.C < p.tinv {
				r.Violate("time", "event %d is stamped %d ns before it was posted", e.B, p.tinv-e.C)
				return
			}
			if p.ret != inf && e.C > p.tret {
				r.Violate("time", "event %d is stamped after its post returned", e.B)
				return
			}
			if e.C < s.tinv {
				r.Violate("stale", "subscription %d received event %d, stamped %d ns before the subscription was requested", e.A, e.B, s.tinv-e.C)
				return
			}
		}
	}
	if r.P("same") == 1 {
		kit.Hit(prSame)
		for _, id := range ids {
			s := subs[id]
			for t, n := range s.count {
				least, most := 0, 0
				for _, v := range values {
					p := posts[v]
					if v%nMev != int64(t) || s.mask>>t&1 == 0 {
						continue
					}
					if p.ret > s.inv && p.inv < s.uret && p.inv < stopRet {
						most++
					}
					if s.ret < p.inv && p.ret != inf && p.ret < s.uinv && p.ret < stopInv {
						least++
					}
				}
				if n < least || n > most {
					r.Violate("delivery", "subscription %d received equal events of type %d %d times; it was active during %d to %d of their posts", id, t, n, least, most)
					return
				}
			}
		}
	}
	for _, v := range values {
		p := posts[v]
		if p.ret == inf {
			continue
		}
		switch {
		case p.out == 2:
			r.Violate("result", "posting event %d returned an unknown error", v)
			return
		case p.out == 1 && p.ret < stopInv:
			r.Violate("result", "posting event %d failed although the multiplexer was not stopped", v)
			return
		case p.out == 0 && p.inv > stopRet:
			r.Violate("result", "posting event %d on a stopped multiplexer succeeded", v)
			return
		}
		if stopInv > p.inv && stopInv < p.ret {
			kit.Hit(prMuxStop)
		}
		for _, id := range ids {
			if r.P("same") == 1 {
				break
			}
			s := subs[id]
			if s.mask>>(v%nMev)&1 == 0 {
				continue
			}
			if s.ret > p.inv {
				if s.inv > p.inv && s.inv < p.ret && s.tinv > p.tinv {
					kit.Hit(prMuxStale)
				}
				continue
			}
			if s.uinv < p.ret || stopInv < p.ret {
				if s.uinv > p.inv && s.uinv < p.ret {
					kit.Hit(prMuxBlock)
				}
				continue
			}
			if _, ok := s.seen[v]; !ok {
				r.Violate("delivery", "subscription %d, active during the whole post of event %d, did not receive it (received %v)", id, v, s.got)
				return
			}
		}
	}
	if r.P("same") == 1 {
		return
	}
	// Posts that follow one another arrive in that order everywhere.
	for _, id := range ids {
		got := subs[id].got
		for i := range got {
			for j := i + 1; j < len(got); j++ {
				if posts[got[j]].ret < posts[got[i]].inv {
					r.Violate("order", "subscription %d received event %d before event %d, whose post had returned before that of the other began", id, got[i], got[j])
					return
				}
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{ID: "C03", Slow: true, Steps: 400, StepCap: 60000, Ticks: true, TickMax: 1e6, Gen: muxGen(false), Exec: muxExec(false)})
	kit.Register(&kit.Prop{ID: "C04", Slow: true, Steps: 400, StepCap: 60000, Ticks: true, TickMax: 1e6, Gen: muxGen(true), Exec: muxExec(true)})
}
