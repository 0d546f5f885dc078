//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"time"

	"flychain/event"
	"flychain/zzverifsim/kit"
)

const (
	nsProdStart = 40 // A producer
	nsProdSeen  = 41 // producer saw the stop signal
	nsProdRet   = 42 // B 1 with an error
	nsUnsInv    = 43 // A client, C time
	nsUnsRet    = 44
	nsErrVal    = 45 // A reader, B error number
	nsErrClosed = 46 // A reader
	rsTry       = 50 // A attempt, B error number passed in, C time
	rsTryRet    = 51 // A attempt, B outcome, C time
	rsInnerEnd  = 52 // A attempt, B error number or 0 for a regular end, C time
	rsInnerUns  = 53 // A attempt, C time
	rsInnerGone = 58 // A attempt, C time: its cancelling is over
	rsUnsInv    = 54
	rsUnsRet    = 55
	rsClosed    = 56
	rsCtxDone   = 57 // A attempt: the context ended while the attempt was running
	scTrackInv  = 70 // A subscription
	scTrackRet  = 71 // A, B 1 when tracked
	scUns       = 72 // A: the underlying subscription was cancelled
	scWUnsInv   = 73
	scWUnsRet   = 74
	scCloseInv  = 75
	scCloseRet  = 76
	scCountInv  = 77
	scCountRet  = 78 // B count
	scErr       = 79 // A, B error number (0 closed)
)

type numErr int64

// An error is an error, whatever it says and whatever it is like.
func (e numErr) Error() string {
	switch e % 8 {
	case 3:
		return ""
	case 5:
		return context.Canceled.Error()
	}
	return fmt.Sprintf("failure %d", int64(e))
}

func (e numErr) Is(target error) bool {
	return e%4 == 1 && (target == context.Canceled || target == io.EOF) || e%4 == 2 && target == context.DeadlineExceeded
}

func (e numErr) Timeout() bool   { return e%3 == 1 }
func (e numErr) Temporary() bool { return e%3 == 1 }

// attemptErr is the error of failed attempt id; nobody is told it.
func attemptErr(id int64) error {
	switch id % 6 {
	case 1:
		return context.Canceled
	case 3:
		return io.EOF
	case 5:
		return context.DeadlineExceeded
	}
	return numErr(100 + id)
}

func errNum(e error) int64 {
	if e == nil {
		return 0
	}
	if n, ok := e.(numErr); ok {
		return int64(n)
	}
	var n numErr
	if errors.As(e, &n) {
		return int64(n)
	}
	return -1
}

var (
	faProdErr   = kit.Ctr("fault.producer_fails")
	faSubFail   = kit.Ctr("fault.subscribe_attempt_fails")
	faSubSlow   = kit.Ctr("fault.slow_subscribe_attempt")
	faSubErr    = kit.Ctr("fault.active_subscription_fails")
	faIgnoreCtx = kit.Ctr("fault.attempt_ignores_cancellation")
	faLateSub   = kit.Ctr("fault.attempt_succeeds_after_cancellation")
	prUnsFlight = kit.Ctr("probe.cancel_while_attempt_in_flight")
	prUnsBack   = kit.Ctr("probe.cancel_during_backoff")
	prUnsActive = kit.Ctr("probe.cancel_while_subscription_active")
	prUnsEnded  = kit.Ctr("probe.cancel_after_end")
	prUnsTwice  = kit.Ctr("probe.concurrent_cancel")
	prRestart   = kit.Ctr("probe.resubscribed_after_failure")
	prBackTop   = kit.Ctr("probe.backoff_reached_its_maximum")
	prBackReset = kit.Ctr("probe.backoff_reset_after_slow_attempt")
	prProdRace  = kit.Ctr("probe.producer_ends_while_being_cancelled")
	prScopeRace = kit.Ctr("probe.scope_closed_while_tracking")
	prScopeUns  = kit.Ctr("probe.scope_closed_while_cancelling_member")
)

func pause(d int64) {
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// ---- C05: producer subscriptions ----
//
//	op "prod":  client 0: A how it ends (0 on its own, 1 when told, 2 whichever
//	            first), B stall, N error number or 0
//	op "unsub": A stall, B sleep
//	op "read":  A stall: reads the error channel until it is closed
func prodGen(g *kit.Gen) {
	how := int64(g.N(3))
	e := int64(0)
	if g.P(1, 2) {
		e = int64(g.Range(1, 9))
	}
	g.Op(0, "prod", how, int64(g.N(12)), e)
	g.Set("psleep", g.Pick(0, 0, 0, 1000, 5000))
	g.Set("linger", g.Pick(0, 0, 3, 1000))
	n := g.Range(0, 3)
	for i := 0; i < n; i++ {
		g.Op(1+i, "unsub", int64(g.N(14)), g.Pick(0, 0, 0, 1000, 5000))
		if g.P(1, 4) {
			g.Op(1+i, "unsub", int64(g.N(3)), 0)
		}
	}
	k := g.Range(0, 2)
	for i := 0; i < k; i++ {
		g.Op(4+i, "read", int64(g.N(12)))
	}
}

func prodExec(r *kit.Run) {
	var how, pst, perr int64
	for _, o := range r.Plan.Ops {
		if o.K == "prod" {
			how, pst, perr = o.A, o.B, o.N
		}
	}
	psleep, linger := r.P("psleep"), r.P("linger")
	sub := event.NewSubscription(func(quit <-chan struct{}) error {
		kit.Log(nsProdStart, 0, 0, now())
		stall(pst)
		told := func() {
			kit.Log(nsProdSeen, 0, 0, now())
			if linger < 100 {
				stall(linger)
			} else {
				pause(linger)
			}
		}
		switch how {
		case 0:
			pause(psleep)
			select {
			case <-quit:
				told()
			default:
			}
		case 1:
			<-quit
			told()
		default:
			t := time.NewTimer(time.Duration(psleep))
			select {
			case <-quit:
				told()
			case <-t.C:
			}
			t.Stop()
		}
		if perr != 0 {
			kit.Hit(faProdErr)
			kit.Log(nsProdRet, 0, perr, now())
			return numErr(perr)
		}
		kit.Log(nsProdRet, 0, 0, now())
		return nil
	})
	for c := 1; c < 8; c++ {
		ops := r.Ops(c)
		if len(ops) == 0 {
			continue
		}
		r.Go("client", func() {
			for _, o := range ops {
				stall(o.A)
				switch o.K {
				case "unsub":
					pause(o.B)
					kit.Log(nsUnsInv, int64(c), 0, now())
					sub.Unsubscribe()
					kit.Log(nsUnsRet, int64(c), 0, now())
				case "read":
					for {
						err, ok := <-sub.Err()
						if !ok {
							kit.Log(nsErrClosed, int64(c), 0, now())
							break
						}
						kit.Log(nsErrVal, int64(c), errNum(err), now())
						if err == nil {
							r.Violate("errchan", "the error channel produced a nil error")
						}
					}
				}
			}
			kit.Publish()
		})
	}
	if !r.Drain() {
		return
	}
	var anyUns bool
	for _, o := range r.Plan.Ops {
		anyUns = anyUns || o.K == "unsub"
	}
	if !anyUns {
		// The producer must not have been told to stop.
		for _, e := range kit.Recs(nsProdSeen) {
			_ = e
			r.Violate("quit", "the producer was told to stop although nobody cancelled the subscription")
			return
		}
	}
	r.Go("last", func() {
		kit.Log(nsUnsInv, 99, 0, now())
		sub.Unsubscribe()
		kit.Log(nsUnsRet, 99, 0, now())
		for {
			err, ok := <-sub.Err()
			if !ok {
				kit.Log(nsErrClosed, 99, 0, now())
				break
			}
			kit.Log(nsErrVal, 99, errNum(err), now())
		}
		kit.Publish()
	})
	if !r.Drain() || !r.MustEnd("after the subscription was cancelled") {
		return
	}
	const inf = ^uint64(0)
	var start, ret, seen, firstInv uint64 = inf, inf, inf, inf
	starts, vals := 0, 0
	closed := uint64(inf)
	invs := map[int64]uint64{}
	closedBy := map[int64]bool{}
	type call struct{ inv, ret uint64 }
	var calls []call
	for _, e := range kit.Recs(-1) {
		switch e.Kind {
		case nsProdStart:
			start = e.Seq
			starts++
		case nsProdSeen:
			seen = e.Seq
		case nsProdRet:
			ret = e.Seq
		case nsUnsInv:
			if firstInv == inf {
				firstInv = e.Seq
			}
			invs[e.A] = e.Seq
		case nsUnsRet:
			calls = append(calls, call{invs[e.A], e.Seq})
		case nsErrVal:
			vals++
			if e.B != perr {
				r.Violate("errchan", "the error channel produced error %d, the producer returned %d", e.B, perr)
				return
			}
			if e.Seq < ret {
				r.Violate("errchan", "the error channel produced a value while the producer was running")
				return
			}
			if closedBy[e.A] {
				r.Violate("errchan", "the error channel produced a value after being closed")
				return
			}
		case nsErrClosed:
			closedBy[e.A] = true
			if closed == inf {
				closed = e.Seq
			}
			if e.Seq < ret {
				r.Violate("errchan", "the error channel was closed while the producer was running")
				return
			}
		}
	}
	_ = start
	if starts != 1 {
		r.Violate("producer", "the producer ran %d times", starts)
		return
	}
	if seen != inf && seen < firstInv {
		r.Violate("quit", "the producer was told to stop before anybody cancelled the subscription")
		return
	}
	if firstInv < ret {
		kit.Hit(prProdRace)
	}
	switch {
	case vals > 1:
		r.Violate("errchan", "the producer's error was reported %d times", vals)
	case vals == 1 && perr == 0:
		r.Violate("errchan", "an error was reported although the producer returned none")
	case vals == 0 && perr != 0 && lastWork(ret, firstInv):
		r.Violate("errchan", "the producer failed before anybody cancelled the subscription, but its error was not reported")
	}
	// A cancellation that does not overlap another one waits for the producer.
	for _, c := range calls {
		if c.ret >= ret {
			continue
		}
		alone := true
		for _, d := range calls {
			if d != c && d.inv < c.ret {
				alone = false
			}
		}
		if alone {
			r.Violate("unsubscribe", "Unsubscribe returned while the producer was still running")
			return
		}
	}
	if closed == inf {
		r.Violate("errchan", "the error channel was not closed")
	}
}

// lastWork tells whether the producer's result was certainly registered
// before the first cancellation: it returned while everything was idle
// afterwards (the driver's own cancellation comes after Drain).
func lastWork(ret, firstInv uint64) bool {
	if ret > firstInv {
		return false
	}
	// Only the driver's cancellation (client 99) is separated from the
	// producer's return by an idle point.
	for _, e := range kit.Recs(nsUnsInv) {
		return e.A == 99
	}
	return true
}

// ---- resubscription ----

type inner struct {
	r     *kit.Run
	id    int64
	err   chan error
	quit  chan struct{}
	slow  int64
	state [2]int64 // cancelled, ended
}

//go:norace
func (s *inner) once(i int) bool {
	s.state[i]++
	return s.state[i] == 1
}

func (s *inner) Err() <-chan error { return s.err }

func (s *inner) Unsubscribe() {
	if s.once(0) {
		kit.Log(rsInnerUns, s.id, 0, now())
		stall(s.slow)
		kit.Log(rsInnerGone, s.id, 0, now())
		close(s.quit)
	}
}

// run is the source feeding the subscription: it ends after d with the given
// error (0: regularly) unless cancelled.
func (s *inner) run(d, e int64) {
	if d < 0 {
		<-s.quit
		close(s.err)
		return
	}
	t := time.NewTimer(time.Duration(d))
	defer t.Stop()
	select {
	case <-s.quit:
	case <-t.C:
		if e != 0 {
			kit.Hit(faSubErr)
			kit.Log(rsInnerEnd, s.id, e, now())
			s.err <- numErr(e)
			<-s.quit
			break
		}
		kit.Log(rsInnerEnd, s.id, 0, now())
	}
	close(s.err)
}

type rsState struct {
	tries   int64
	running int64
}

//go:norace
func (s *rsState) begin() (int64, bool) {
	s.tries++
	s.running++
	return s.tries - 1, s.running == 1
}

//go:norace
func (s *rsState) end() { s.running-- }

//go:norace
func (s *rsState) inFlight() bool { return s.running > 0 }

// Attempts: op "try": client 0: A kind, B duration, N lifetime
//
//	kind 0 fails; 1 succeeds, later fails; 2 succeeds, later ends regularly;
//	3 succeeds for good
//
// modifiers in the high bits of A: 16 ignores cancellation, 32 succeeds
// although cancelled, 64 slow cancellation of the inner subscription.
// op "unsub": A stall, B sleep. op "jump".
func resubGen(mode string) func(g *kit.Gen) {
	return func(g *kit.Gen) {
		max := g.Pick(1000, 100000, 1e9, 10e9, 3600e9, 30*86400e9, int64(g.Range(1000, 1<<40)))
		g.Set("max", max)
		g.Set("api", int64(g.N(2)))
		g.Set("bound", 0)
		dur := func() int64 {
			return g.Pick(0, 0, 0, max/20, max/3, max+1, 3*max)
		}
		n := g.Range(1, 6)
		if mode == "backoff" {
			n = g.Range(3, 9)
		}
		if g.P(1, 40) {
			n = g.Range(10, 90)
		}
		long := g.Pick(0, 1, 2)
		for i := 0; i < n; i++ {
			k := int64(g.N(4))
			d := dur()
			if mode == "backoff" {
				k = g.Pick(0, 0, 0, 0, 0, 1)
				d = g.Pick(0, 0, 0, 0, max/20, max/3, max+1, 3*max)
			}
			if mode == "keep" && k == 3 && g.P(2, 3) {
				k = 1
			}
			if n >= 10 && i < n-1 { // a long chain: nothing ends it early
				if k = long; k > 1 {
					k = g.Pick(0, 1)
				}
			}
			life := g.Pick(0, 0, max/7, max, 2*max)
			if g.P(1, 3) {
				k |= 16
			}
			if g.P(1, 3) {
				k |= 32
			}
			if g.P(1, 4) {
				k |= 64
			}
			g.Op(0, "try", k, d, life)
		}
		if g.P(1, 4) {
			g.Op(5, "jump", g.Pick(-3600e9, 3600e9, -86400e9), g.Pick(0, max/3, max))
			g.Op(5, "jump", g.Pick(-3600e9, 3600e9, -86400e9), g.Pick(0, max/3, max))
		}
		if mode == "cancel" {
			k := g.Range(1, 3)
			for i := 0; i < k; i++ {
				at := g.Pick(0, 0, 0, max/20, max/10, max/5, max/3, max+2, 2*max, 4*max)
				if n >= 10 && g.P(2, 3) {
					at = max * int64(g.N(n))
				}
				g.Op(1+i, "unsub", int64(g.N(25)), at)
				if g.P(1, 3) {
					g.Op(1+i, "unsub", int64(g.N(5)), 0)
				}
			}
		}
		g.Set("horizon", max*int64(50+5*n))
	}
}

func resubExec(mode string) func(r *kit.Run) {
	return func(r *kit.Run) {
		var script []kit.Op
		for _, o := range r.Plan.Ops {
			if o.K == "try" {
				script = append(script, o)
			}
		}
		max := r.P("max")
		if max < 10 {
			max = 10
		}
		st := &rsState{}
		fn := func(ctx context.Context, last error) (event.Subscription, error) {
			id, alone := st.begin()
			defer st.end()
			kit.Log(rsTry, id, errNum(last), now())
			if !alone {
				r.Violate("overlap", "attempt %d started while another attempt was running", id)
			}
			if ctx.Err() != nil && !kitAny(rsUnsInv) {
				r.Violate("context", "attempt %d was started with a cancelled context", id)
			}
			op := kit.Op{A: 3}
			if id < int64(len(script)) {
				op = script[id]
			}
			kind := op.A & 15
			if op.B > 0 {
				kit.Hit(faSubSlow)
				if op.A&16 != 0 {
					kit.Hit(faIgnoreCtx)
					pause(op.B)
				} else {
					t := time.NewTimer(time.Duration(op.B))
					select {
					case <-t.C:
					case <-ctx.Done():
						kit.Log(rsCtxDone, id, 0, now())
						if op.A&32 == 0 {
							t.Stop()
							kit.Log(rsTryRet, id, 100+id, now())
							return nil, attemptErr(id)
						}
						kit.Hit(faLateSub)
					}
					t.Stop()
				}
			}
			if kind == 0 {
				kit.Hit(faSubFail)
				kit.Log(rsTryRet, id, 100+id, now())
				return nil, attemptErr(id)
			}
			s := &inner{r: r, id: id, err: make(chan error, 1), quit: make(chan struct{})}
			if op.A&64 != 0 {
				s.slow = 4 + id%2
			}
			life, e := op.N, int64(0)
			switch kind {
			case 1:
				e = 200 + id
			case 3:
				life = -1
			}
			go s.run(life, e)
			kit.Log(rsTryRet, id, 0, now())
			return s, nil
		}
		var sub event.Subscription
		if r.P("api") == 0 {
			sub = event.Resubscribe(time.Duration(max), func(ctx context.Context) (event.Subscription, error) { return fn(ctx, nil) })
		} else {
			sub = event.ResubscribeErr(time.Duration(max), fn)
		}
		for c := 1; c < 6; c++ {
			ops := r.Ops(c)
			if len(ops) == 0 {
				continue
			}
			r.Go("client", func() {
				for _, o := range ops {
					if o.K == "jump" {
						pause(o.B)
						wallJump(o.A)
						continue
					}
					stall(o.A)
					pause(o.B)
					fl := int64(0)
					if st.inFlight() {
						fl = 1
					}
					kit.Log(rsUnsInv, int64(c), fl, now())
					sub.Unsubscribe()
					kit.Log(rsUnsRet, int64(c), 0, now())
				}
				kit.Publish()
			})
		}
		r.Go("observer", func() {
			err, ok := <-sub.Err()
			if ok {
				r.Violate("errchan", "the error channel produced a value: %v", err)
			}
			kit.Log(rsClosed, 0, 0, now())
			kit.Publish()
		})
		if !r.RunFor(time.Duration(r.P("horizon"))) {
			return
		}
		if mode == "cancel" {
			checkResub(r, mode, max, int64(len(script)), false)
			if r.Bad() {
				return
			}
		} else {
			checkResub(r, mode, max, int64(len(script)), true)
			if r.Bad() {
				return
			}
		}
		r.Go("last", func() {
			kit.Log(rsUnsInv, 99, 0, now())
			sub.Unsubscribe()
			kit.Log(rsUnsRet, 99, 0, now())
			kit.Publish()
		})
		if !r.Drain() || !r.MustEnd("after the subscription was cancelled") {
			return
		}
		checkResub(r, mode, max, int64(len(script)), false)
	}
}

func kitAny(kind int32) bool {
	n := runtime.SimLogLen()
	for i := 0; i < n; i++ {
		if runtime.SimLogAt(i).Kind == kind {
			return true
		}
	}
	return false
}

func checkResub(r *kit.Run, mode string, max, nscript int64, idle bool) {
	const inf = ^uint64(0)
	_, slack := runtime.SimTicks()
	type try struct {
		inv, ret, end, uns    uint64
		tinv, tret, tend      int64
		outcome, endErr, last int64
	}
	var tries []*try
	var unsInv, unsRet, closed uint64 = inf, inf, inf
	open := map[int64]struct {
		seq    uint64
		t      int64
		flight int64
	}{}
	active := int64(-1)
	nuns := 0
	var unsAt, goneAt int64
	for _, e := range kit.Recs(-1) {
		switch e.Kind {
		case rsTry:
			if unsInv != inf && e.C > maxT(unsAt, goneAt)+slack {
				r.Violate("unsubscribe", "attempt %d started %v after Unsubscribe was called", e.A, time.Duration(e.C-unsAt))
				return
			}
			if active >= 0 {
				r.Violate("overlap", "attempt %d started while subscription %d was not yet cancelled", e.A, active)
				return
			}
			if unsRet != inf {
				r.Violate("afterlife", "attempt %d started after Unsubscribe had returned", e.A)
				return
			}
			if closed != inf {
				r.Violate("afterlife", "attempt %d started after the error channel was closed", e.A)
				return
			}
			if e.A != int64(len(tries)) {
				r.Violate("attempts", "attempt numbering broken at %d", e.A)
				return
			}
			t := &try{inv: e.Seq, ret: inf, end: inf, uns: inf, tinv: e.C, last: e.B}
			if len(tries) > 0 {
				p := tries[len(tries)-1]
				if p.ret == inf {
					r.Violate("overlap", "attempt %d started while the previous one was running", e.A)
					return
				}
				if p.outcome == 0 && p.end == inf {
					r.Violate("attempts", "attempt %d started although the previous subscription was active", e.A)
					return
				}
				if p.outcome == 0 && p.endErr == 0 {
					r.Violate("attempts", "attempt %d started although the previous subscription had ended regularly", e.A)
					return
				}
				kit.Hit(prRestart)
				from := p.tret
				if p.outcome == 0 {
					from = p.tend
				}
				gap := e.C - from
				if gap > max+slack {
					r.Violate("backoff", "attempt %d started %v after the failure before it; the maximum is %v", e.A, time.Duration(gap), time.Duration(max))
					return
				}
				if p.outcome != 0 {
					if gap <= 0 {
						r.Violate("backoff", "attempt %d started without any delay after the failed attempt before it", e.A)
						return
					}
					if gap >= max {
						kit.Hit(prBackTop)
					}
					slowTry := p.tret-p.tinv > max+slack
					quickTry := p.tret-p.tinv+slack <= max
					if slowTry {
						kit.Hit(prBackReset)
						if gap > max/2+slack {
							r.Violate("backoff", "the delay after an attempt that took %v is %v: not reset (maximum %v)", time.Duration(p.tret-p.tinv), time.Duration(gap), time.Duration(max))
							return
						}
					}
					if n := len(tries); quickTry && n >= 2 && tries[n-2].outcome != 0 {
						prev := p.tinv - tries[n-2].tret
						if gap+slack < prev {
							r.Violate("backoff", "the delay shrank from %v to %v after another quick failure", time.Duration(prev), time.Duration(gap))
							return
						}
						if prev < max/2 && gap+slack < prev+prev/4 {
							r.Violate("backoff", "the delay does not grow while attempts keep failing (%v, then %v; maximum %v)", time.Duration(prev), time.Duration(gap), time.Duration(max))
							return
						}
					}
				}
			}
			want := int64(0)
			for _, p := range tries {
				if p.outcome == 0 && p.end != inf {
					want = p.endErr
				}
			}
			if r.P("api") == 1 && t.last != want {
				r.Violate("lasterr", "attempt %d was passed error %d; the last failed subscription ended with %d", e.A, t.last, want)
				return
			}
			tries = append(tries, t)
		case rsTryRet:
			t := tries[e.A]
			t.ret, t.outcome, t.tret = e.Seq, e.B, e.C
			if e.B == 0 {
				active = e.A
			}
		case rsCtxDone:
			if unsInv == inf {
				r.Violate("context", "the context of attempt %d ended although nobody cancelled", e.A)
				return
			}
		case rsInnerEnd:
			t := tries[e.A]
			t.end, t.endErr, t.tend = e.Seq, e.B, e.C
		case rsInnerGone:
			goneAt = e.C
		case rsInnerUns:
			t := tries[e.A]
			t.uns = e.Seq
			if active == e.A {
				active = -1
			}
			if t.end == inf && unsInv == inf {
				r.Violate("cancelled", "subscription %d was cancelled although it was active and nobody asked for it", e.A)
				return
			}
		case rsUnsInv:
			if len(open) > 0 {
				kit.Hit(prUnsTwice)
			}
			open[e.A] = struct {
				seq    uint64
				t      int64
				flight int64
			}{e.Seq, e.C, e.B}
			nuns++
			if unsInv == inf {
				unsInv, unsAt = e.Seq, e.C
				switch {
				case closed != inf:
					kit.Hit(prUnsEnded)
				case len(tries) > 0 && tries[len(tries)-1].ret == inf:
					kit.Hit(prUnsFlight)
				case active >= 0:
					kit.Hit(prUnsActive)
				default:
					kit.Hit(prUnsBack)
				}
			}
		case rsUnsRet:
			o := open[e.A]
			delete(open, e.A)
			if unsRet == inf {
				unsRet = e.Seq
			}
			for i, t := range tries {
				if t.ret == inf {
					r.Violate("unsubscribe", "Unsubscribe returned while attempt %d was still running", i)
					return
				}
				if t.outcome == 0 && t.uns == inf {
					r.Violate("leak", "Unsubscribe returned but subscription %d was never cancelled", i)
					return
				}
			}
			// Prompt: it waits for the running attempt, not for a backoff timer.
			from := o.t
			if n := len(tries); n > 0 {
				from = maxT(from, tries[n-1].tret)
			}
			from = maxT(from, goneAt)
			if e.C-from > slack {
				r.Violate("unsubscribe", "Unsubscribe took %v although no attempt was running", time.Duration(e.C-from))
				return
			}
		case rsClosed:
			closed = e.Seq
			n := len(tries)
			if unsInv == inf && (n == 0 || tries[n-1].outcome != 0 || tries[n-1].end == inf || tries[n-1].endErr != 0) {
				r.Violate("ended", "the subscription ended by itself although no subscription had ended regularly")
				return
			}
		}
	}
	if len(open) > 0 {
		r.Violate("stuck", "Unsubscribe never returned: %s", r.Stuck())
		return
	}
	if unsInv == inf && idle {
		// All timers below the horizon have run: the chain must have been
		// followed to its end.
		n := len(tries)
		if n == 0 {
			r.Violate("attempts", "no attempt was made")
			return
		}
		l := tries[n-1]
		if l.ret == inf {
			return
		}
		_ = nscript
		if (l.outcome != 0 || l.end != inf && l.endErr != 0) && now()-maxT(l.tret, l.tend) > max+slack {
			r.Violate("giveup", "no new attempt within %v after attempt %d failed", time.Duration(max), n-1)
			return
		}
		if l.outcome == 0 && l.end != inf && l.endErr == 0 && closed == inf {
			r.Violate("ended", "the active subscription ended regularly but the error channel was not closed")
			return
		}
	}
	if nuns > 0 && closed == inf {
		r.Violate("errchan", "the error channel is still open after Unsubscribe returned")
	}
}

func maxT(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ---- C09: scopes ----
//
//	op "track": A subscription id, B stall; op "unsub": A stall (last tracked);
//	op "close": A stall; op "count"; op "errread"
func scopeGen(g *kit.Gen) {
	id := int64(0)
	if g.P(1, 40) { // a crowd, closed when all else is done: see scopeCrowd
		g.Set("crowd", 1)
		n := g.Range(1, 4)
		for c := 0; c < n; c++ {
			for i := g.Range(8, 40); i > 0; i-- {
				g.Op(c, "track", id, 0, 0)
				id++
				if g.P(1, 5) {
					g.Op(c, "unsub", 0)
				}
				if g.P(1, 8) {
					g.Op(c, "count")
				}
			}
		}
		g.Set("clients", int64(n))
		g.Set("subs", id)
		return
	}
	n := g.Range(1, 4)
	for c := 0; c < n; c++ {
		k := g.Range(1, 4)
		for i := 0; i < k && id < 7; i++ {
			// At most 8 members: the set is keyed by address, and larger maps
			// would be walked in an order that depends on addresses.
			g.Op(c, "track", id, int64(g.N(10)), int64(g.N(3)))
			id++
			if g.P(1, 2) {
				g.Op(c, "unsub", int64(g.N(8)))
				if g.P(1, 4) {
					g.Op(c, "unsub", int64(g.N(3)))
				}
			}
			if g.P(1, 3) {
				g.Op(c, "count")
			}
		}
	}
	if g.P(4, 5) {
		k := g.Range(1, 2)
		for i := 0; i < k; i++ {
			g.Op(n+i, "close", int64(g.N(40)))
			if id < 8 && g.P(1, 2) {
				g.Op(n+i, "track", id, 0, 0)
				id++
			}
			if g.P(1, 2) {
				g.Op(n+i, "count")
			}
		}
	}
	g.Set("clients", int64(n+2))
	g.Set("subs", id)
}

type member struct {
	id    int64
	kind  int64
	err   chan error
	state [1]int64
}

//go:norace
func (m *member) first() bool {
	m.state[0]++
	return m.state[0] == 1
}

func (m *member) Err() <-chan error { return m.err }
func (m *member) Unsubscribe() {
	if m.first() && m.kind >= 0 {
		kit.Log(scUns, m.id, 0, 0)
		stall(m.kind * 2)
		close(m.err)
	}
}

var wrappers []event.Subscription

//go:norace
func addWrapper(id int64, s event.Subscription) { wrappers[id] = s }

// scopeCrowd closes a scope of many members. The set of members is walked in
// an order that depends on addresses, so members do nothing but count here.
func scopeCrowd(r *kit.Run) {
	scope := new(event.SubscriptionScope)
	members := make([]*member, r.P("subs")+1)
	gone := make([]bool, r.P("subs")+1)
	for _, o := range r.Plan.Ops {
		if o.K == "track" {
			members[o.A] = &member{id: o.A, kind: -1, err: make(chan error)}
		}
	}
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		last := int64(-1)
		for _, o := range ops {
			if o.K == "track" {
				last = o.A
			} else if o.K == "unsub" && last >= 0 {
				gone[last] = true
			}
		}
		r.Go("client", func() {
			var w event.Subscription
			for _, o := range ops {
				switch o.K {
				case "track":
					if w = scope.Track(members[o.A]); w == nil {
						r.Violate("track", "subscription %d was refused by an open scope", o.A)
						return
					}
				case "unsub":
					if w != nil {
						w.Unsubscribe()
					}
				case "count":
					scope.Count()
				}
			}
			kit.Publish()
		})
	}
	if !r.Drain() || !r.MustEnd("after every client finished") {
		return
	}
	want := 0
	for i, m := range members {
		if m == nil {
			continue
		}
		n := int64(0)
		if gone[i] {
			n = 1
		} else {
			want++
		}
		if m.state[0] != n {
			r.Violate("unsubscribe", "subscription %d was cancelled %d times before its scope was closed", i, m.state[0])
			return
		}
	}
	if n := scope.Count(); n != want {
		r.Violate("count", "Count returned %d while %d subscriptions are tracked", n, want)
		return
	}
	kit.Hit(prScopeCrowd)
	r.Go("closer", func() { scope.Close(); kit.Publish() })
	if !r.Drain() || !r.MustEnd("after Close was called") {
		return
	}
	for i, m := range members {
		if m != nil && m.state[0] != 1 {
			r.Violate("leak", "one of %d subscriptions (%d) was cancelled %d times when its scope was closed", want, i, m.state[0])
			return
		}
	}
	if n := scope.Count(); n != 0 {
		r.Violate("count", "Count returned %d for a closed scope", n)
	}
}

var prScopeCrowd = kit.Ctr("probe.scope_with_many_members")

func scopeExec(r *kit.Run) {
	if r.P("crowd") == 1 {
		scopeCrowd(r)
		return
	}
	scope := new(event.SubscriptionScope)
	wrappers = make([]event.Subscription, r.P("subs")+1)
	members := make([]*member, r.P("subs")+1)
	for _, o := range r.Plan.Ops {
		if o.K == "track" {
			members[o.A] = &member{id: o.A, kind: o.N, err: make(chan error)}
		}
	}
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		if len(ops) == 0 {
			continue
		}
		r.Go("client", func() {
			last := int64(-1)
			var w event.Subscription
			for _, o := range ops {
				switch o.K {
				case "track":
					stall(o.B)
					kit.Log(scTrackInv, o.A, 0, 0)
					s := scope.Track(members[o.A])
					b := int64(0)
					if s != nil {
						b = 1
						w, last = s, o.A
						addWrapper(o.A, s)
						if s.Err() != members[o.A].Err() {
							r.Violate("errchan", "the tracked subscription does not expose the error channel of subscription %d", o.A)
						}
					}
					kit.Log(scTrackRet, o.A, b, 0)
				case "unsub":
					if w == nil {
						continue
					}
					stall(o.A)
					kit.Log(scWUnsInv, last, 0, 0)
					w.Unsubscribe()
					kit.Log(scWUnsRet, last, 0, 0)
				case "close":
					stall(o.A)
					kit.Log(scCloseInv, int64(c), 0, 0)
					scope.Close()
					kit.Log(scCloseRet, int64(c), 0, 0)
				case "count":
					kit.Log(scCountInv, int64(c), 0, 0)
					n := scope.Count()
					kit.Log(scCountRet, int64(c), int64(n), 0)
				}
			}
			kit.Publish()
		})
	}
	if !r.Drain() || !r.MustEnd("after every client finished") {
		return
	}
	if !checkScope(r, scope.Count()) {
		return
	}
	kit.Log(scCloseInv, 99, 0, 0)
	scope.Close()
	kit.Log(scCloseRet, 99, 0, 0)
	if s := scope.Track(&member{id: -1, err: make(chan error)}); s != nil {
		r.Violate("track", "a closed scope accepted a subscription")
		return
	}
	for i, w := range wrappers {
		if w == nil {
			continue
		}
		select {
		case <-w.Err():
		default:
			r.Violate("errchan", "the error channel of subscription %d is open after its scope was closed", i)
			return
		}
		w.Unsubscribe() // still harmless
	}
	checkScope(r, scope.Count())
}

func checkScope(r *kit.Run, finalCount int) bool {
	const inf = ^uint64(0)
	type info struct {
		inv, ret, uns, uinv, uret uint64
		ok                        bool
	}
	m := map[int64]*info{}
	var ids []int64
	var closeInv, closeRet uint64 = inf, inf
	for _, e := range kit.Recs(-1) {
		switch e.Kind {
		case scTrackInv:
			m[e.A] = &info{inv: e.Seq, ret: inf, uns: inf, uinv: inf, uret: inf}
			ids = append(ids, e.A)
		case scTrackRet:
			m[e.A].ret, m[e.A].ok = e.Seq, e.B == 1
		case scUns:
			m[e.A].uns = e.Seq
		case scWUnsInv:
			if m[e.A].uinv == inf {
				m[e.A].uinv = e.Seq
			}
		case scWUnsRet:
			if m[e.A].uret == inf {
				m[e.A].uret = e.Seq
			}
			if m[e.A].uns == inf {
				r.Violate("unsubscribe", "subscription %d was not cancelled by Unsubscribe", e.A)
				return false
			}
		case scCloseInv:
			if closeInv == inf {
				closeInv = e.Seq
			}
		case scCloseRet:
			if closeRet == inf {
				closeRet = e.Seq
			}
			for id, i := range m {
				if i.ret < e.Seq && i.ok && i.uns == inf {
					r.Violate("leak", "subscription %d is active after its scope was closed", id)
					return false
				}
			}
		}
	}
	for _, id := range ids {
		i := m[id]
		if i.ret == inf {
			continue
		}
		switch {
		case i.ok && i.inv > closeRet:
			r.Violate("track", "subscription %d was accepted by a closed scope", id)
		case !i.ok && i.ret < closeInv:
			r.Violate("track", "subscription %d was refused by an open scope", id)
		case !i.ok && i.uns != inf:
			r.Violate("track", "subscription %d was refused but cancelled", id)
		case i.uns < i.uinv && i.uns < closeInv:
			r.Violate("unsubscribe", "subscription %d was cancelled although nobody asked for it", id)
		}
		if closeInv < i.ret && closeInv > i.inv {
			kit.Hit(prScopeRace)
		}
		if i.uinv < closeRet && i.uret > closeInv {
			kit.Hit(prScopeUns)
		}
		if r.Bad() {
			return false
		}
	}
	// Counts.
	bounds := func(a, b uint64) (lo, hi int64) {
		if closeRet < a {
			return 0, 0
		}
		for _, id := range ids {
			i := m[id]
			if i.ret == inf || !i.ok {
				continue
			}
			if i.ret < a && i.uinv > b && closeInv > b {
				lo++
			}
			if i.inv < b && i.uret > a {
				hi++
			}
		}
		return
	}
	inv := map[int64]uint64{}
	for _, e := range kit.Recs(scCountInv, scCountRet) {
		if e.Kind == scCountInv {
			inv[e.A] = e.Seq
			continue
		}
		lo, hi := bounds(inv[e.A], e.Seq)
		if e.B < lo || e.B > hi {
			r.Violate("count", "Count returned %d, between %d and %d subscriptions are tracked", e.B, lo, hi)
			return false
		}
	}
	lo, hi := bounds(inf-1, inf-1)
	if int64(finalCount) < lo || int64(finalCount) > hi {
		r.Violate("count", "Count returned %d, between %d and %d subscriptions are tracked", finalCount, lo, hi)
		return false
	}
	return true
}

func init() {
	kit.Register(&kit.Prop{ID: "C05", Slow: true, Steps: 120, StepCap: 60000, Ticks: true, TickMax: 2000, Gen: prodGen, Exec: prodExec})
	kit.Register(&kit.Prop{ID: "C06", Steps: 500, StepCap: 100000, Ticks: true, TickMax: 100, Gen: resubGen("keep"), Exec: resubExec("keep")})
	kit.Register(&kit.Prop{ID: "C07", Steps: 400, StepCap: 100000, Ticks: true, TickMax: 100, Gen: resubGen("cancel"), Exec: resubExec("cancel")})
	kit.Register(&kit.Prop{ID: "C08", Steps: 600, StepCap: 100000, Ticks: true, TickMax: 10, Gen: resubGen("backoff"), Exec: resubExec("backoff")})
	kit.Register(&kit.Prop{ID: "C09", Slow: true, Steps: 250, StepCap: 60000, Gen: scopeGen, Exec: scopeExec})
}
