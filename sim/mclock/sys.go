//go:build go1.22

package main

import (
	"runtime"
	"time"

	"flychain/common/mclock"
	"flychain/zzverifsim/kit"
)

const (
	syArmInv  = 30 // A timer, B duration, C time
	syArmRet  = 31
	syGot     = 32 // A timer, B value, C time
	syFn      = 33 // A timer, C time
	syStopInv = 34
	syStopRet = 35 // A timer, B 1 on success, C time
	sySleep   = 36
	syAwake   = 37
	syNow     = 38 // A client, B reading, C time before
	alSched   = 50 // A deadline, C time
	alSchedR  = 51
	alStop    = 52
	alStopR   = 53
	alGot     = 54 // C time
)

// ---- C11: the system clock ----
//
//	"timer"/"after"/"fn"/"sleep": A id, B duration, N stall;
//	"stop": A id, B pause; "reset": A id, B pause, N duration; "recv": A id;
//	"now"; "jump": A
func sysGen(g *kit.Gen) {
	id := int64(0)
	nc := g.Range(1, 4)
	dur := func() int64 { return g.Odd(g.Pick(0, 1, 50, 1000, 1000, 5000, 1e6, 1e9, 60e9, 3600e9, 86400e9)) }
	for c := 0; c < nc; c++ {
		k := g.Range(1, 5)
		if g.P(1, 60) {
			k = g.Range(6, 60)
		}
		for ; k > 0; k-- {
			switch g.N(6) {
			case 0:
				g.Op(c, "sleep", id, dur())
			case 1:
				g.Op(c, "fn", id, dur(), int64(g.N(6)))
				if g.P(2, 3) {
					g.Op(c, "stop", id, dur()*int64(g.N(2)))
				}
			case 2:
				g.Op(c, "after", id, dur(), int64(g.N(6)))
			default:
				g.Op(c, "timer", id, dur(), int64(g.N(6)))
				switch g.N(4) {
				case 0:
					g.Op(c, "stop", id, dur()*int64(g.N(2)))
				case 1:
					g.Op(c, "reset", id, dur()*int64(g.N(2)), dur())
				case 2:
					g.Op(c, "recv", id)
				}
			}
			id++
			if g.P(1, 3) {
				g.Op(c, "now")
			}
			if g.P(1, 4) {
				g.Op(c, "jump", g.Pick(-3600e9, 3600e9, -1e6, 1e6, -86400e9*365))
			}
		}
	}
	g.Set("clients", int64(nc))
	g.Set("timers", id)
}

func sysExec(r *kit.Run) {
	nt := int(r.P("timers"))
	clk := mclock.System{}
	var c mclock.Clock = clk
	for cl := 0; cl < int(r.P("clients")); cl++ {
		ops := r.Ops(cl)
		if len(ops) == 0 {
			continue
		}
		r.Go("client", func() {
			defer kit.Publish()
			chans := make([]<-chan mclock.AbsTime, nt)
			cts := make([]mclock.ChanTimer, nt)
			ts := make([]mclock.Timer, nt)
			done := make([]bool, nt)
			base := mclock.AbsTime(1 << 60)
			got := func(id int64) {
				v := <-chans[id]
				kit.Log(syGot, id, int64(v-base), now())
				done[id] = true
			}
			for _, o := range ops {
				switch o.K {
				case "now":
					t := now()
					v := c.Now()
					kit.Log(syNow, int64(cl), int64(v-base), t)
					if a := int64(v.Add(7).Sub(v)); a != 7 {
						r.Violate("value", "adding 7 ns moved the time by %d ns", a)
					}
				case "jump":
					wallJump(o.A)
				case "sleep":
					kit.Log(sySleep, o.A, o.B, now())
					c.Sleep(time.Duration(o.B))
					kit.Log(syAwake, o.A, 0, now())
				case "timer":
					kit.Log(syArmInv, o.A, o.B, now())
					t := c.NewTimer(time.Duration(o.B))
					kit.Log(syArmRet, o.A, 0, now())
					cts[o.A], ts[o.A], chans[o.A] = t, t, t.C()
					stall(o.N)
				case "after":
					kit.Log(syArmInv, o.A, o.B, now())
					chans[o.A] = c.After(time.Duration(o.B))
					kit.Log(syArmRet, o.A, 0, now())
					stall(o.N)
				case "fn":
					id := o.A
					kit.Log(syArmInv, id, o.B, now())
					ts[id] = c.AfterFunc(time.Duration(o.B), func() {
						kit.Log(syFn, id, 0, now())
						kit.Publish()
					})
					kit.Log(syArmRet, id, 0, now())
				case "stop":
					if ts[o.A] == nil || done[o.A] {
						continue
					}
					pause(o.B)
					kit.Log(syStopInv, o.A, 0, now())
					b := int64(0)
					if ts[o.A].Stop() {
						b = 1
						done[o.A] = true
						kit.Hit(prStopOK)
					} else {
						kit.Hit(prStopRace)
					}
					kit.Log(syStopRet, o.A, b, now())
				case "recv":
					if chans[o.A] != nil && !done[o.A] {
						got(o.A)
					}
				case "reset":
					if cts[o.A] == nil || done[o.A] {
						continue
					}
					pause(o.B)
					kit.Log(syStopInv, o.A, 0, now())
					if cts[o.A].Stop() {
						kit.Log(syStopRet, o.A, 1, now())
					} else {
						kit.Log(syStopRet, o.A, 0, now())
						got(o.A)
					}
					kit.Hit(prReset)
					kit.Log(syArmInv, o.A, o.N, now())
					cts[o.A].Reset(time.Duration(o.N))
					kit.Log(syArmRet, o.A, 0, now())
					got(o.A)
				}
			}
			for id, ch := range chans {
				if ch != nil && !done[id] {
					got(int64(id))
				}
			}
		})
	}
	if !r.Drain() || !r.MustEnd("after every timer was due") {
		return
	}
	_, slack := runtime.SimTicks()
	type arm struct {
		tinv, tret, d int64
		stopT         int64
		stopped       bool
		fires         int
		fn            bool
	}
	arms := map[int64][]*arm{}
	sleeps := map[int64][2]int64{}
	last := map[int64]int64{}
	for _, e := range kit.Recs(-1) {
		switch e.Kind {
		case syArmInv:
			arms[e.A] = append(arms[e.A], &arm{tinv: e.C, tret: e.C, d: e.B})
		case syArmRet:
			arms[e.A][len(arms[e.A])-1].tret = e.C
		case syGot, syFn:
			l := arms[e.A]
			x := l[len(l)-1]
			x.fires++
			switch {
			case x.stopped:
				r.Violate("stop", "timer %d fired although Stop reported success", e.A)
			case x.fires > 1:
				r.Violate("fire", "timer %d fired %d times", e.A, x.fires)
			case e.C < x.tinv+x.d:
				r.Violate("early", "timer %d of %v fired %v early", e.A, time.Duration(x.d), time.Duration(x.tinv+x.d-e.C))
			case e.Kind == syGot && e.B < x.tinv+x.d:
				r.Violate("value", "timer %d of %v delivered a time %v before its deadline", e.A, time.Duration(x.d), time.Duration(x.tinv+x.d-e.B))
			case e.Kind == syGot && e.B > e.C:
				r.Violate("value", "timer %d delivered a time in the future", e.A)
			case e.Kind == syGot && e.B > x.tret+x.d+slack:
				r.Violate("late", "timer %d of %v fired %v late", e.A, time.Duration(x.d), time.Duration(e.B-x.tret-x.d))
			case e.Kind == syFn && e.C > x.tret+x.d+slack:
				r.Violate("late", "callback %d of %v ran %v late", e.A, time.Duration(x.d), time.Duration(e.C-x.tret-x.d))
			}
		case syStopInv:
			l := arms[e.A]
			l[len(l)-1].stopT = e.C
		case syStopRet:
			l := arms[e.A]
			x := l[len(l)-1]
			if e.B == 1 {
				x.stopped = true
				if x.fires > 0 {
					r.Violate("stop", "Stop reported success for timer %d, which had fired", e.A)
				}
			} else if e.C < x.tinv+x.d {
				r.Violate("stop", "Stop of timer %d reported that it had expired, %v before its deadline", e.A, time.Duration(x.tinv+x.d-e.C))
			}
		case sySleep:
			sleeps[e.A] = [2]int64{e.C, e.B}
		case syAwake:
			s := sleeps[e.A]
			if e.C < s[0]+s[1] || e.C > s[0]+s[1]+slack {
				r.Violate("sleep", "a sleep of %v took %v", time.Duration(s[1]), time.Duration(e.C-s[0]))
			}
		case syNow:
			if e.B < last[e.A] {
				r.Violate("now", "the monotonic clock went back by %v", time.Duration(last[e.A]-e.B))
			}
			if e.B < e.C || e.B > e.C+slack {
				r.Violate("now", "the monotonic clock is off by %v", time.Duration(e.B-e.C))
			}
			last[e.A] = e.B
		}
		if r.Bad() {
			return
		}
	}
	for id, l := range arms {
		for _, x := range l {
			if !x.stopped && x.fires != 1 {
				r.Violate("fire", "timer %d fired %d times", id, x.fires)
				return
			}
		}
	}
}

// ---- C12: alarms ----
//
// Simulated clock (mode 0), one client: "sched": A offset from now; "run": A;
// "poll"; "stop". System clock (mode 1): "sched": A offset, B pause before;
// "stop"; "jump"; a reader takes notifications as they come.
func alarmGen(g *kit.Gen) {
	mode := int64(g.N(2))
	g.Set("mode", mode)
	n := g.Range(2, 14)
	if mode == 1 {
		n = g.Range(1, 8)
	}
	if g.P(1, 40) {
		n = g.Range(15, 150)
	}
	for i := 0; i < n; i++ {
		k := g.N(10)
		if mode == 0 {
			switch {
			case k < 4:
				g.Op(0, "sched", g.Pick(-5, 0, 1, 2, 3, 5, 8, 20))
			case k < 7:
				g.Op(0, "run", g.Pick(0, 1, 1, 2, 3, 5, 10))
			case k < 9:
				g.Op(0, "poll")
			default:
				g.Op(0, "stop")
			}
			continue
		}
		switch {
		case k < 8:
			g.Op(0, "sched", g.Odd(g.Pick(-1e6, 0, 1000, 5000, 5000, 1e6, 1e9, 3600e9)), g.Odd(g.Pick(0, 0, 10, 3000, 5000, 2e6, 2e9)))
		case k < 9:
			g.Op(0, "stop", 0, g.Pick(0, 10, 3000, 5000))
		default:
			g.Op(0, "jump", g.Pick(-3600e9, 3600e9))
		}
	}
	g.Set("rstall", g.Pick(0, 0, 10, 5000))
}

func alarmExec(r *kit.Run) {
	if r.P("mode") == 0 {
		alarmSeq(r)
	} else {
		alarmSys(r)
	}
}

func alarmSeq(r *kit.Run) {
	clk := new(mclock.Simulated)
	al := mclock.NewAlarm(clk)
	ch := al.C()
	r.Go("client", func() {
		defer kit.Publish()
		cur := int64(0)
		var pend []int64 // deadlines asked for since the last notification or Stop
		must := int64(-1)
		token := false
		for _, o := range r.Plan.Ops {
			switch o.K {
			case "sched":
				d := cur + o.A
				if o.A < 0 {
					kit.Hit(prPast)
				}
				al.Schedule(mclock.AbsTime(d))
				if d < cur {
					d = cur
				}
				if len(pend) > 0 && pend[len(pend)-1] <= d {
					kit.Hit(prReuse)
				}
				pend = append(pend, d)
				must = d
				if !token && len(ch) != 0 {
					r.Violate("early", "a notification was there at once, %d before its deadline", d-cur)
				}
			case "run":
				cur += o.A
				clk.Run(time.Duration(o.A))
				may, all := false, true
				for _, p := range pend {
					if p <= cur {
						may = true
					} else {
						all = false
					}
				}
				have := len(ch) == 1
				switch {
				case token && !have:
					r.Violate("lost", "a notification vanished")
				case !token && have && !may:
					r.Violate("early", "a notification came at %d; deadlines asked for: %v", cur, pend)
				case !have && must >= 0 && must <= cur:
					r.Violate("late", "no notification by %d; the alarm was last set to %d", cur, must)
				case !token && have:
					pend, must = nil, -1
				case token && may:
					// It may have fired into the full channel.
					var l []int64
					for _, p := range pend {
						if p > cur {
							l = append(l, p)
						}
					}
					pend, must = l, -1
					if !all {
						break
					}
				}
				token = have
			case "poll":
				select {
				case <-ch:
					if !token {
						r.Violate("early", "a notification came at %d; deadlines asked for: %v", cur, pend)
					}
					token = false
				default:
					if token {
						r.Violate("lost", "a notification vanished")
					}
				}
			case "stop":
				if token {
					kit.Hit(prDrained)
				}
				al.Stop()
				if len(ch) != 0 {
					r.Violate("stop", "a notification is left after Stop")
				}
				pend, must, token = nil, -1, false
				if n := clk.ActiveTimers(); n != 0 {
					r.Violate("stop", "%d timers are left after Stop", n)
				}
			}
			if al.C() != ch {
				r.Violate("channel", "the notification channel changed")
			}
			if n := clk.ActiveTimers(); n > 1 {
				r.Violate("leak", "the alarm holds %d timers", n)
			}
			if r.Bad() {
				return
			}
		}
	})
	r.Settle()
}

func alarmSys(r *kit.Run) {
	al := mclock.NewAlarm(mclock.System{})
	quit := make(chan struct{})
	base := mclock.AbsTime(1 << 60)
	rst := r.P("rstall")
	r.Go("reader", func() {
		defer kit.Publish()
		for {
			select {
			case <-al.C():
				kit.Log(alGot, 0, 0, now())
				if rst > 0 {
					kit.Hit(faLate)
					pause(rst)
				}
			case <-quit:
				return
			}
		}
	})
	r.Go("client", func() {
		defer kit.Publish()
		for _, o := range r.Plan.Ops {
			pause(o.B)
			switch o.K {
			case "sched":
				t := now()
				if o.A < 0 {
					kit.Hit(prPast)
				}
				kit.Log(alSched, t+o.A, 0, t)
				al.Schedule(base + mclock.AbsTime(t+o.A))
				kit.Log(alSchedR, 0, 0, now())
			case "stop":
				kit.Log(alStop, 0, 0, now())
				al.Stop()
				kit.Log(alStopR, 0, 0, now())
			case "jump":
				wallJump(o.A)
			}
		}
	})
	if !r.RunFor(100 * time.Hour) {
		return
	}
	_, slack := runtime.SimTicks()
	var deadlines []int64 // asked for so far
	got, asked := 0, 0
	type want struct {
		seq uint64
		t   int64
		by  int64
	}
	var w *want // the latest setting, not yet honoured
	for _, e := range kit.Recs(-1) {
		if w != nil && e.C > w.by+slack+rst {
			r.Violate("late", "no notification within %v of the deadline", time.Duration(e.C-w.by))
			return
		}
		switch e.Kind {
		case alSched:
			by := e.A
			if e.C > by {
				by = e.C
			}
			w = &want{e.Seq, e.C, by}
			deadlines = append(deadlines, by)
			asked++
		case alStop:
			w = nil
		case alGot:
			got++
			w = nil
			ok := false
			for _, d := range deadlines {
				ok = ok || d <= e.C
			}
			if !ok {
				r.Violate("early", "a notification came at %d; deadlines asked for: %v", e.C, deadlines)
				return
			}
			if got > asked {
				r.Violate("spurious", "%d notifications for %d settings", got, asked)
				return
			}
		}
	}
	if w != nil && now() > w.by+slack+rst {
		r.Violate("late", "the alarm set to %d never fired (time %d)", w.by, now())
		return
	}
	close(quit)
	r.Settle()
}

func init() {
	kit.Register(&kit.Prop{ID: "C11", Steps: 300, StepCap: 60000, Ticks: true, TickMax: 200, Gen: sysGen, Exec: sysExec})
	kit.Register(&kit.Prop{ID: "C12", Steps: 150, StepCap: 60000, Ticks: true, TickMax: 200, Gen: alarmGen, Exec: alarmExec})
}
