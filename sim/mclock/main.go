//go:build go1.22

package main

import (
	"runtime"
	"time"

	"flychain/common/mclock"
	"flychain/zzverifsim/kit"
)

func main() { kit.Main() }

var (
	faStall    = kit.Ctr("fault.client_stall")
	faWallJump = kit.Ctr("fault.wall_clock_jump")
	faSlowFn   = kit.Ctr("fault.slow_timer_callback")
	faLate     = kit.Ctr("fault.late_reader")
	prStopRace = kit.Ctr("probe.stop_after_expiry")
	prStopOK   = kit.Ctr("probe.stop_before_expiry")
	prReset    = kit.Ctr("probe.reset")
	prRuns     = kit.Ctr("probe.concurrent_advances")
	prNested   = kit.Ctr("probe.callback_used_the_clock")
	prWait     = kit.Ctr("probe.waited_for_timers")
	prReuse    = kit.Ctr("probe.alarm_reused_earlier_deadline")
	prDrained  = kit.Ctr("probe.alarm_stop_discarded_notification")
	prPast     = kit.Ctr("probe.alarm_scheduled_in_the_past")
)

func now() int64 { return runtime.SimNow() - 1<<60 }

func stall(n int64) {
	if n > 0 {
		kit.Hit(faStall)
	}
	for i := int64(0); i < n; i++ {
		runtime.Gosched()
	}
}

func wallJump(d int64) {
	kit.Hit(faWallJump)
	runtime.SimWallJump(d)
}

func pause(d int64) {
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// ---- C10: the simulated clock ----

const (
	clNewInv   = 1 // A timer, B duration
	clNewRet   = 2
	clFire     = 3 // A timer, B clock time seen by the callback
	clGot      = 4 // A timer, B value received
	clStopInv  = 5
	clStopRet  = 6 // A timer, B 1 when it reported success
	clRunInv   = 7 // A run, B duration
	clRunRet   = 8
	clNow      = 9  // A client, B value
	clWaitInv  = 10 // A client, B wanted
	clWaitRet  = 11
	clSleepInv = 12
	clSleepRet = 13
	clCountInv = 14 // A client
	clCountRet = 15 // A client, B value
	clExtra    = 16
)

// Sequential mode: one client, exact model.
//
//	"new": A kind (0 NewTimer, 1 AfterFunc, 2 After), B duration
//	"stop": A timer; "reset": A timer, B duration; "run": A duration; "recv": A timer
func clockGen(g *kit.Gen) {
	if g.P(1, 3) {
		g.Set("mode", 1)
		n, of := g.Range(4, 30), 10
		if g.P(1, 40) { // many timers
			n, of = g.Range(30, 300), g.Range(2, 9)
		}
		id := int64(0)
		for i := 0; i < n; i++ {
			k := g.N(10)
			if of < 10 && k > 6 && !g.P(1, 8) {
				k = g.N(of)
			}
			switch {
			case k < 4 || id == 0:
				g.Op(0, "new", int64(g.N(3)), g.Odd(g.Pick(0, 1, 2, 3, 5, 5, 8, 13, 100, -1, 1e9)), g.Pick(0, 0, 0, 1, 2))
				id++
			case k < 5:
				g.Op(0, "stop", int64(g.N(int(id))))
			case k < 7:
				g.Op(0, "reset", int64(g.N(int(id))), g.Pick(0, 1, 2, 5, 9, 20))
			case k < 8:
				g.Op(0, "recv", int64(g.N(int(id))))
			default:
				g.Op(0, "run", g.Odd(g.Pick(0, 1, 1, 2, 3, 5, 10, 50, 1e9)))
			}
		}
		return
	}
	g.Set("mode", 0)
	id := int64(0)
	c := 0
	if g.P(1, 4) {
		// Timers come and go while others wait for them; the clock stands still.
		for nc := g.Range(1, 3); c < nc; c++ {
			for k := g.Range(1, 4); k > 0; k-- {
				g.Op(c, "fn", id, g.Pick(1, 3, 8, 20), 0)
				if g.P(1, 3) {
					g.Op(c, "stop", id, int64(g.N(10)))
				}
				if g.P(1, 4) {
					g.Op(c, "count")
				}
				id++
			}
		}
		for i := g.Range(1, 4); i > 0; i-- {
			for k := g.Range(1, 3); k > 0; k-- {
				g.Op(c, "wait", int64(g.Range(0, int(id))), int64(g.N(6)))
			}
			c++
		}
		g.Set("clients", int64(c))
		g.Set("timers", id)
		g.Set("extras", 1)
		return
	}
	for nc := g.Range(1, 3); c < nc; c++ {
		for k := g.Range(1, 4); k > 0; k-- {
			switch g.N(6) {
			case 0:
				g.Op(c, "sleep", id, g.Pick(0, 1, 3, 5, 8))
			case 1:
				g.Op(c, "fn", id, g.Pick(0, 1, 3, 5, 8, 20), g.Pick(0, 0, 1, 2))
				if g.P(1, 2) {
					g.Op(c, "stop", id, int64(g.N(20)))
				}
			default:
				g.Op(c, "timer", id, g.Pick(0, 1, 3, 5, 8, 20), int64(g.N(10)))
				switch g.N(4) {
				case 0:
					g.Op(c, "stop", id, int64(g.N(20)))
				case 1:
					g.Op(c, "reset", id, int64(g.N(20)), g.Pick(1, 4, 9))
				case 2:
					g.Op(c, "recv", id)
				}
			}
			id++
			if g.P(1, 4) {
				g.Op(c, "now")
			}
			if g.P(1, 4) {
				g.Op(c, "count")
			}
		}
	}
	for i := g.N(3); i > 0; i-- {
		g.Op(c, "wait", int64(g.Range(0, 3)))
		c++
	}
	for i := g.Range(1, 2); i > 0; i-- {
		for k := g.Range(2, 7); k > 0; k-- {
			g.Op(c, "run", g.Pick(0, 1, 1, 2, 3, 5, 10), int64(g.N(15)))
		}
		c++
	}
	g.Set("clients", int64(c))
	g.Set("timers", id)
	g.Set("extras", g.Pick(0, 0, 2, 5))
}

func clockExec(r *kit.Run) {
	if r.P("mode") == 1 {
		clockSeq(r)
	} else {
		clockConc(r)
	}
}

type mtimer struct {
	kind    int64
	at      int64
	pending bool
	fired   int // callbacks run / values sent so far
	want    int
	t       mclock.Timer
	ct      mclock.ChanTimer
	ch      <-chan mclock.AbsTime
	got     []int64
	held    int // values in the channel
	last    int64
}

func clockSeq(r *kit.Run) {
	clk := new(mclock.Simulated)
	var ts []*mtimer
	var cur int64
	var order []int // callbacks in the order they ran
	chk := func(what string) bool {
		if r.Bad() {
			return false
		}
		n := 0
		for i, t := range ts {
			if t.pending {
				n++
			}
			if t.kind == 1 {
				if t.fired != t.want {
					r.Violate("fire", "after %s: callback %d (due at %d, time %d) ran %d times instead of %d", what, i, t.at, cur, t.fired, t.want)
					return false
				}
			} else if len(t.ch) != t.held {
				r.Violate("fire", "after %s: the channel of timer %d (due at %d, time %d) holds %d values instead of %d", what, i, t.at, cur, len(t.ch), t.held)
				return false
			}
		}
		if g := clk.ActiveTimers(); g != n {
			r.Violate("count", "after %s: %d active timers, %d are pending", what, g, n)
			return false
		}
		if g := int64(clk.Now()); g != cur {
			r.Violate("now", "after %s: the clock shows %d instead of %d", what, g, cur)
			return false
		}
		return true
	}
	r.Go("client", func() {
		defer kit.Publish()
		for _, o := range r.Plan.Ops {
			if r.Bad() {
				return
			}
			var t *mtimer
			if o.K != "new" && o.K != "run" {
				if o.A >= int64(len(ts)) {
					continue
				}
				t = ts[o.A]
			}
			switch o.K {
			case "new":
				t := &mtimer{kind: o.A, at: cur + o.B, pending: true}
				i := len(ts)
				switch o.A {
				case 0:
					t.ct = clk.NewTimer(time.Duration(o.B))
					t.t, t.ch = t.ct, t.ct.C()
				case 1:
					nested := o.N
					t.t = clk.AfterFunc(time.Duration(o.B), func() {
						t.fired++
						order = append(order, i)
						if nested > 0 {
							// Callbacks may use the clock.
							kit.Hit(prNested)
							_ = clk.Now()
							_ = clk.ActiveTimers()
							t.t.Stop()
						}
						if g := int64(clk.Now()); g < t.at {
							r.Violate("early", "callback %d, due at %d, ran at %d", i, t.at, g)
						}
					})
				default:
					t.ch = clk.After(time.Duration(o.B))
				}
				ts = append(ts, t)
			case "stop":
				if t.t == nil {
					continue
				}
				ok := t.t.Stop()
				if ok != t.pending {
					r.Violate("stop", "Stop of timer %d reported %v, the timer was pending: %v", o.A, ok, t.pending)
				}
				t.pending = false
			case "reset":
				if t.ct == nil || t.held > 0 {
					continue
				}
				kit.Hit(prReset)
				t.ct.Reset(time.Duration(o.B))
				t.at, t.pending = cur+o.B, true
			case "recv":
				if t.ch == nil {
					continue
				}
				select {
				case v := <-t.ch:
					if t.held == 0 {
						r.Violate("fire", "timer %d produced %d although it had not expired", o.A, v)
					}
					if int64(v) != t.last {
						r.Violate("value", "timer %d, due at %d, delivered time %d", o.A, t.last, v)
					}
					t.held = 0
				default:
					if t.held != 0 {
						r.Violate("fire", "timer %d expired but delivered nothing", o.A)
					}
				}
			case "run":
				n0 := len(order)
				cur += o.A
				clk.Run(time.Duration(o.A))
				for _, t := range ts {
					if t.pending && t.at <= cur {
						t.pending = false
						if t.kind == 1 {
							t.want++
						} else if t.held == 0 {
							t.held, t.last = 1, t.at
						}
					}
				}
				for i := n0 + 1; i < len(order); i++ {
					if ts[order[i]].at < ts[order[i-1]].at {
						r.Violate("order", "callback %d (due at %d) ran after callback %d (due at %d)", order[i], ts[order[i]].at, order[i-1], ts[order[i-1]].at)
					}
				}
			}
			if !chk(o.K) {
				return
			}
		}
	})
	r.Settle()
}

func clockConc(r *kit.Run) {
	clk := new(mclock.Simulated)
	nt := int(r.P("timers"))
	nc := int(r.P("clients"))
	at := make([]int64, nt) // deadline bounds are taken from the log
	_ = at
	for c := 0; c < nc; c++ {
		ops := r.Ops(c)
		if len(ops) == 0 {
			continue
		}
		r.Go("client", func() {
			defer kit.Publish()
			chans := make([]mclock.ChanTimer, nt)
			timers := make([]mclock.Timer, nt)
			drained := make([]bool, nt)
			nrun := 0
			for _, o := range ops {
				switch o.K {
				case "now":
					v := clk.Now()
					kit.Log(clNow, int64(c), int64(v), 0)
				case "sleep":
					kit.Log(clSleepInv, o.A, o.B, 0)
					clk.Sleep(time.Duration(o.B))
					kit.Log(clSleepRet, o.A, int64(clk.Now()), 0)
				case "timer":
					kit.Log(clNewInv, o.A, o.B, 0)
					t := clk.NewTimer(time.Duration(o.B))
					kit.Log(clNewRet, o.A, 0, 0)
					chans[o.A], timers[o.A] = t, t
					stall(o.N)
				case "fn":
					id, slow := o.A, o.N
					kit.Log(clNewInv, id, o.B, 0)
					timers[id] = clk.AfterFunc(time.Duration(o.B), func() {
						if slow > 0 {
							kit.Hit(faSlowFn)
							stall(slow * 3)
						}
						kit.Log(clFire, id, int64(clk.Now()), 0)
					})
					kit.Log(clNewRet, id, 0, 0)
				case "stop":
					if timers[o.A] == nil {
						continue
					}
					stall(o.B)
					kit.Log(clStopInv, o.A, 0, 0)
					ok := timers[o.A].Stop()
					b := int64(0)
					if ok {
						b = 1
						kit.Hit(prStopOK)
					} else {
						kit.Hit(prStopRace)
					}
					kit.Log(clStopRet, o.A, b, 0)
					if ok {
						drained[o.A] = true
					}
				case "recv":
					if chans[o.A] == nil || drained[o.A] {
						continue
					}
					v := <-chans[o.A].C()
					kit.Log(clGot, o.A, int64(v), int64(clk.Now()))
					drained[o.A] = true
				case "reset":
					t := chans[o.A]
					if t == nil || drained[o.A] {
						continue
					}
					stall(o.B)
					// The documented way: stop, drain, reset.
					kit.Log(clStopInv, o.A, 0, 0)
					if t.Stop() {
						kit.Log(clStopRet, o.A, 1, 0)
					} else {
						kit.Log(clStopRet, o.A, 0, 0)
						v := <-t.C()
						kit.Log(clGot, o.A, int64(v), int64(clk.Now()))
					}
					kit.Hit(prReset)
					kit.Log(clNewInv, o.A, o.N, 0)
					t.Reset(time.Duration(o.N))
					kit.Log(clNewRet, o.A, 0, 0)
					v := <-t.C()
					kit.Log(clGot, o.A, int64(v), int64(clk.Now()))
					drained[o.A] = true
				case "wait":
					kit.Hit(prWait)
					stall(o.B)
					kit.Log(clWaitInv, int64(c), o.A, 0)
					clk.WaitForTimers(int(o.A))
					kit.Log(clWaitRet, int64(c), o.A, 0)
				case "count":
					kit.Log(clCountInv, int64(c), 0, 0)
					n := clk.ActiveTimers()
					kit.Log(clCountRet, int64(c), int64(n), 0)
				case "run":
					stall(o.B)
					kit.Log(clRunInv, int64(c*100+nrun), o.A, 0)
					clk.Run(time.Duration(o.A))
					kit.Log(clRunRet, int64(c*100+nrun), o.A, int64(clk.Now()))
					nrun++
				}
			}
			for id, t := range chans {
				if t == nil || drained[id] {
					continue
				}
				kit.Hit(faLate)
				v := <-t.C()
				kit.Log(clGot, int64(id), int64(v), int64(clk.Now()))
			}
		})
	}
	if !r.Settle() {
		return
	}
	// Flush: advance until nobody needs the clock any more, with enough pending
	// timers for those who wait for them.
	var extra []mclock.Timer
	for i, idle := 0, 0; i < 40 && idle < 2; i++ {
		// Nothing can run: whoever waits for timers that exist was not woken.
		if n := clk.ActiveTimers(); !checkWaiters(r, n) {
			return
		}
		if int64(i) == r.P("extras") {
			kit.Log(clExtra, 0, 0, 0)
			for k := 0; k < max(3, nt); k++ {
				extra = append(extra, clk.AfterFunc(1<<40, func() {}))
			}
			if !r.Settle() {
				return
			}
		}
		if r.Live() == 0 && extra != nil {
			idle++
		}
		r.Go("advance", func() {
			d := int64(30)
			if extra == nil {
				d = 3
			}
			kit.Log(clRunInv, int64(9100+i), d, 0)
			clk.Run(time.Duration(d))
			kit.Log(clRunRet, int64(9100+i), d, int64(clk.Now()))
			kit.Publish()
		})
		if !r.Settle() {
			return
		}
	}
	for _, t := range extra {
		if !t.Stop() {
			r.Violate("stop", "Stop of a timer due in the far future reported that it had expired")
		}
	}
	if !r.MustEnd("after the clock advanced past every deadline") {
		return
	}
	n := clk.ActiveTimers()
	checkClock(r, n, int64(clk.Now()))
}

// checkWaiters is called when nothing can run and n timers are active.
func checkWaiters(r *kit.Run, n int) bool {
	waits := map[int64]int64{}
	for _, e := range kit.Recs(clWaitInv, clWaitRet) {
		if e.Kind == clWaitInv {
			waits[e.A] = e.B
		} else {
			delete(waits, e.A)
		}
	}
	least := int64(1 << 40)
	for _, w := range waits {
		least = min(least, w)
	}
	if least <= int64(n) {
		r.Violate("wait", "somebody still waits for %d timers although %d are active", least, n)
		return false
	}
	return true
}

func checkClock(r *kit.Run, active int, final int64) {
	const inf = ^uint64(0)
	type arm struct {
		inv, ret        uint64
		d               int64
		lo, hi          int64 // bounds of the deadline
		stopped         bool
		fires           int
		fireSeq         uint64
		stopInv, stopOK uint64
	}
	arms := map[int64][]*arm{}
	runs := map[int64]*advance{}
	var rl []*advance
	recs := kit.Recs(-1)
	for _, e := range recs {
		switch e.Kind {
		case clRunInv:
			x := &advance{e.Seq, inf, e.B}
			for _, y := range rl {
				if y.ret == inf {
					kit.Hit(prRuns)
				}
			}
			runs[e.A] = x
			rl = append(rl, x)
		case clRunRet:
			runs[e.A].ret = e.Seq
		}
	}
	// Bounds of the clock at a point.
	clockLo := func(s uint64) (t int64) {
		for _, x := range rl {
			if x.ret < s {
				t += x.d
			}
		}
		return
	}
	clockHi := func(s uint64) (t int64) {
		for _, x := range rl {
			if x.inv < s {
				t += x.d
			}
		}
		return
	}
	if h := clockHi(inf); h != final {
		r.Violate("now", "the clock shows %d after advances of %d in total", final, h)
		return
	}
	sleepInv := map[int64][2]int64{}
	lastNow := map[int64]int64{}
	waitInv := map[int64]uint64{}
	extra := 0
	sleeps := map[int64]bool{}
	// Timers that may have existed at some moment between a and b (now).
	pendHi := func(a, b uint64) int {
		n := extra + len(sleeps)
		for _, l := range arms {
			for _, x := range l {
				if x.stopOK > a && x.fireSeq > a {
					n++
				}
			}
		}
		return n
	}
	// Timers that existed all the time between a and b (now).
	pendLo := func(a, b uint64) int {
		n := 0
		for _, l := range arms {
			for _, x := range l {
				if x.ret < a && x.stopInv > b && clockHi(b) < x.lo {
					n++
				}
			}
		}
		return n
	}
	countInv := map[int64]uint64{}
	for _, e := range recs {
		switch e.Kind {
		case clNewInv:
			arms[e.A] = append(arms[e.A], &arm{inv: e.Seq, ret: inf, d: e.B, stopInv: inf, stopOK: inf, fireSeq: inf, lo: clockLo(e.Seq) + e.B})
		case clNewRet:
			x := arms[e.A][len(arms[e.A])-1]
			x.ret = e.Seq
			x.hi = clockHi(e.Seq) + x.d
		case clFire:
			l := arms[e.A]
			x := l[len(l)-1]
			x.fires++
			x.fireSeq = e.Seq
			if x.stopOK != inf {
				r.Violate("stop", "callback %d ran although Stop reported success", e.A)
				return
			}
			if x.fires > 1 {
				r.Violate("fire", "callback %d ran twice", e.A)
				return
			}
			if e.B < x.lo {
				r.Violate("early", "callback %d, due at %d or later, ran at %d", e.A, x.lo, e.B)
				return
			}
		case clGot:
			l := arms[e.A]
			x := l[len(l)-1]
			x.fires++
			x.fireSeq = e.Seq
			if x.stopOK != inf {
				r.Violate("stop", "timer %d fired although Stop reported success", e.A)
				return
			}
			if e.C < x.lo {
				r.Violate("early", "timer %d, due at %d or later, fired at %d", e.A, x.lo, e.C)
				return
			}
			if e.B < x.lo || e.B > x.hi {
				r.Violate("value", "timer %d, due between %d and %d, delivered time %d", e.A, x.lo, x.hi, e.B)
				return
			}
		case clStopInv:
			l := arms[e.A]
			l[len(l)-1].stopInv = e.Seq
		case clStopRet:
			l := arms[e.A]
			x := l[len(l)-1]
			if e.B == 1 {
				x.stopOK = e.Seq
				if x.fires > 0 {
					r.Violate("stop", "Stop reported success for timer %d, which had fired", e.A)
					return
				}
				if clockLo(x.stopInv) >= x.hi && ranPast(rl, x.ret, x.stopInv, x.hi, clockLo) {
					r.Violate("stop", "Stop reported success for timer %d although the clock had passed its deadline", e.A)
					return
				}
			} else if clockHi(e.Seq) < x.lo {
				r.Violate("stop", "Stop of timer %d reported that it had expired, %d before its deadline", e.A, x.lo-clockHi(e.Seq))
				return
			}
		case clSleepInv:
			sleepInv[e.A] = [2]int64{clockLo(e.Seq), e.B}
			sleeps[e.A] = true
		case clSleepRet:
			s := sleepInv[e.A]
			if e.B < s[0]+s[1] {
				r.Violate("early", "a sleep of %d begun at %d or later ended at %d", s[1], s[0], e.B)
				return
			}
		case clNow:
			if e.B < lastNow[e.A] {
				r.Violate("now", "the clock went back from %d to %d", lastNow[e.A], e.B)
				return
			}
			lastNow[e.A] = e.B
			if e.B > clockHi(e.Seq) {
				r.Violate("now", "the clock showed %d after advances of at most %d", e.B, clockHi(e.Seq))
				return
			}
		case clWaitInv:
			waitInv[e.A] = e.Seq
		case clExtra:
			extra = max(3, int(r.P("timers")))
		case clCountInv:
			countInv[e.A] = e.Seq
		case clCountRet:
			if lo, hi := pendLo(countInv[e.A], e.Seq), pendHi(countInv[e.A], e.Seq); int64(lo) > e.B || e.B > int64(hi) {
				r.Violate("count", "%d timers were said to be active, between %d and %d were", e.B, lo, hi)
				return
			}
		case clWaitRet:
			if n := pendHi(waitInv[e.A], e.Seq); int64(n) < e.B {
				r.Violate("wait", "a wait for %d timers ended although at most %d existed", e.B, n)
				return
			}
		}
	}
	// Every armed timer that was not stopped has fired by now.
	for id, l := range arms {
		for _, x := range l {
			if x.stopOK == inf && x.fires != 1 {
				r.Violate("fire", "timer %d, due at %d at the latest, fired %d times by %d", id, x.hi, x.fires, final)
				return
			}
		}
	}
	if active != 0 {
		r.Violate("count", "%d timers are active, none is pending", active)
	}
}

type advance struct {
	inv, ret uint64
	d        int64
}

// ranPast tells whether an advance that ended before s and began after the
// timer existed took the clock to the deadline.
func ranPast(rl []*advance, armed, s uint64, hi int64, lo func(uint64) int64) bool {
	for _, x := range rl {
		if x.inv > armed && x.ret < s && lo(x.ret+1) >= hi {
			return true
		}
	}
	return false
}

func init() {
	kit.Register(&kit.Prop{ID: "C10", Steps: 400, StepCap: 60000, Gen: clockGen, Exec: clockExec})
}
