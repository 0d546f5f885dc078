//go:build go1.22

package main

import (
	"sort"

	"flychain/event"
	"flychain/zzverifsim/kit"
)

// Observation kinds.
const (
	evSendInv  = 1  // A value
	evSendRet  = 2  // A value, B nsent
	evSubInv   = 3  // A subscription
	evSubRet   = 4  // A
	evUnsubInv = 5  // A
	evUnsubRet = 6  // A
	evRecv     = 7  // A subscription, B value
	evLate     = 8  // A subscription, B value: found in the channel's buffer at the end
	evErrSig   = 9  // A subscription: error channel observed closed
	evMisuse   = 10 // A kind, B 1 if it panicked
)

// feed abstracts over the two broadcast implementations.
type feed[T any] interface {
	sub(ch chan T, dir int64) event.Subscription
	send(v int64) int
	misuse(kind int64) bool // reports whether it panicked
	val(x T) int64
}

type untyped struct{ f event.Feed }

func (u *untyped) val(x int64) int64 { return x }
func (u *untyped) sub(ch chan int64, dir int64) event.Subscription {
	if dir&1 == 1 {
		return u.f.Subscribe((chan<- int64)(ch))
	}
	return u.f.Subscribe(ch)
}
func (u *untyped) send(v int64) int { return u.f.Send(v) }
func (u *untyped) misuse(kind int64) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	switch kind % 6 {
	case 0:
		u.f.Send("wrong type")
	case 1:
		u.f.Subscribe(make(chan string, 1))
	case 2:
		u.f.Subscribe(make(<-chan int64))
	case 3:
		u.f.Subscribe(42)
	case 4:
		u.f.Send(nil)
	case 5:
		u.f.Subscribe(nil)
	}
	return false
}

type typed struct{ f event.FeedOf[int64] }

func (t *typed) val(x int64) int64                               { return x }
func (t *typed) sub(ch chan int64, dir int64) event.Subscription { return t.f.Subscribe(ch) }
func (t *typed) send(v int64) int                                { return t.f.Send(v) }
func (t *typed) misuse(kind int64) bool                          { return true }

// boxed carries an interface type; nilValue stands for the nil interface.
type boxed struct{ f event.FeedOf[error] }

const nilValue = 2

func (t *boxed) val(x error) int64 {
	if x == nil {
		return nilValue
	}
	return int64(x.(numErr))
}
func (t *boxed) sub(ch chan error, dir int64) event.Subscription { return t.f.Subscribe(ch) }
func (t *boxed) send(v int64) int {
	if v == nilValue {
		return t.f.Send(nil)
	}
	return t.f.Send(numErr(v))
}
func (t *boxed) misuse(kind int64) bool { return true }

// repeated sends one value again and again: receipts can only be counted.
type repeated struct {
	feed[int64]
	v int64
}

func (t *repeated) send(v int64) int { return t.feed.send(t.v) }

var (
	prSame   = kit.Ctr("probe.equal_values_sent")
	prSlow   = kit.Ctr("probe.sender_blocked_on_slow_subscriber")
	prMidUns = kit.Ctr("probe.unsubscribe_while_send_in_progress")
	prMidSub = kit.Ctr("probe.subscribe_while_send_in_progress")
	prDblUns = kit.Ctr("probe.concurrent_double_unsubscribe")
	prMisuse = kit.Ctr("fault.api_misuse_panic")
	prAband  = kit.Ctr("fault.subscriber_stops_reading")
	prStall  = kit.Ctr("fault.client_stall")
)

func stall(n int64) {
	if n > 0 {
		kit.Hit(prStall)
	}
	kit.Stall(n)
}

// The workload: "send" clients send unique values; "sub" clients subscribe,
// read N values (or until told to stop), unsubscribe.
//
//	op "send":  A value, B stall before
//	op "sub":   A subscription, B buffer size, N stall before
//	op "recv":  A stall, receives one value (or stops when the run ends)
//	op "unsub": A stall
//	op "unsub2": two concurrent unsubscribes of the current subscription
//	op "misuse"
func feedGen(dynamic bool) func(g *kit.Gen) {
	return func(g *kit.Gen) {
		g.Set("typed", g.Pick(0, 0, 0, 0, 1, 1, 1, 2, 3, 4))
		senders := g.Range(1, 3)
		subs := g.Range(1, 4)
		if g.P(1, 12) {
			subs = g.Range(5, 9)
		}
		// Sometimes a crowd of subscribers, or one that reads for long.
		crowd, marathon := false, false
		switch g.N(60) {
		case 0:
			crowd = true
			subs = g.Range(10, 70)
			if g.P(1, 6) {
				subs = g.Range(70, 200)
			}
		case 1:
			marathon = true
			senders, subs = g.Range(1, 2), g.Range(1, 2)
		}
		g.Set("senders", int64(senders))
		g.Set("subs", int64(subs))
		c := 0
		maxSend := 4
		if dynamic && g.P(1, 2) {
			maxSend = 8
		}
		if crowd {
			maxSend = 2
		}
		total := 0
		for s := 0; s < senders; s++ {
			n := g.Range(1, maxSend)
			if marathon {
				n = g.Range(60, 300)
			}
			for i := 0; i < n; i++ {
				st := int64(0)
				if g.P(1, 3) && !marathon {
					st = int64(g.N(12))
				}
				g.Op(c, "send", int64(s*1000+i+1), st)
				total++
				if dynamic && g.P(1, 10) {
					g.Op(c, "misuse", int64(g.N(6)))
				}
			}
			c++
		}
		id := int64(0)
		for s := 0; s < subs; s++ {
			if !dynamic {
				g.Op(c, "sub", id, g.Pick(0, 0, 1, 1, 2, 3, 8), 0)
				id++
				for i := 0; i < total; i++ {
					if g.P(1, 4) {
						g.Op(c, "recv", int64(g.N(10)))
					}
				}
				c++
				continue
			}
			rounds := g.Range(1, 3)
			if crowd {
				rounds = 1
			}
			for k := 0; k < rounds; k++ {
				g.Op(c, "sub", id, g.Pick(0, 0, 0, 1, 1, 2, 4), int64(g.N(10)))
				id++
				n := g.N(total + 2)
				for i := 0; i < n; i++ {
					g.Op(c, "recv", int64(g.N(3)*g.N(5)))
				}
				if g.P(1, 4) {
					g.Op(c, "unsub2", int64(g.N(6)))
				} else {
					g.Op(c, "unsub", int64(g.N(6)))
				}
			}
			c++
		}
		g.Set("clients", int64(c))
	}
}

type fsub[T any] struct {
	id  int64
	ch  chan T
	sub event.Subscription
}

func feedExec(dynamic bool) func(r *kit.Run) {
	return func(r *kit.Run) {
		switch r.P("typed") {
		case 0:
			feedRun[int64](r, &untyped{}, dynamic)
		case 1:
			feedRun[int64](r, &typed{}, dynamic)
		case 3:
			feedRun[int64](r, &repeated{&untyped{}, 7}, dynamic)
		case 4:
			feedRun[int64](r, &repeated{&typed{}, 0}, dynamic)
		default:
			feedRun[error](r, &boxed{}, dynamic)
		}
	}
}

func feedRun[T any](r *kit.Run, f feed[T], dynamic bool) {
	{
		nc := int(r.P("clients"))
		// When every sender is done the remaining readers are told to stop.
		stop := make(chan struct{})
		sendersLeft := make(chan struct{}, nc)
		nsend := 0
		chans := make(map[int64]chan T)
		quit, liveSubs = nil, nil
		for _, o := range r.Plan.Ops {
			if o.K == "sub" {
				chans[o.A] = make(chan T, o.B)
				for int64(len(quit)) <= o.A {
					quit = append(quit, make(chan struct{}))
					liveSubs = append(liveSubs, nil)
				}
			}
		}
		ready := make(chan struct{}, nc)
		nready := 0
		for c := 0; c < nc; c++ {
			ops := r.Ops(c)
			if len(ops) == 0 {
				continue
			}
			isSender := ops[0].K == "send" || ops[0].K == "misuse"
			if isSender {
				nsend++
				gate := !dynamic
				r.Go("sender", func() {
					if gate {
						<-stop // in the static workload reused as a start gate below
					}
					for _, o := range ops {
						stall(o.B)
						switch o.K {
						case "send":
							kit.Log(evSendInv, o.A, 0, 0)
							n := f.send(o.A)
							kit.Log(evSendRet, o.A, int64(n), 0)
						case "misuse":
							kit.Hit(prMisuse)
							p := f.misuse(o.A)
							b := int64(0)
							if p {
								b = 1
							}
							kit.Log(evMisuse, o.A, b, 0)
						}
					}
					sendersLeft <- struct{}{}
				})
				continue
			}
			nready++
			r.Go("subscriber", func() { subscriber(r, f, ops, chans, stop, dynamic, ready) })
		}
		if !dynamic {
			// All subscriptions exist before the first send.
			if !r.Drain() {
				return
			}
			if len(ready) != nready {
				r.Violate("stuck", "subscribing blocks: %d of %d subscribers ready: %s", len(ready), nready, r.Stuck())
				return
			}
			close(stop)
			if !r.Drain() {
				return
			}
			if len(sendersLeft) != nsend {
				r.Violate("stuck", "every subscriber keeps reading, yet %d of %d senders never finish: %s", nsend-len(sendersLeft), nsend, r.Stuck())
				return
			}
			checkFeed(r, f, chans)
			if r.Bad() {
				return
			}
			for i, s := range liveSubs {
				if s == nil {
					continue
				}
				s.Unsubscribe()
				kit.Log(evUnsubRet, int64(i), 0, 0)
				close(quit[i])
			}
			if !r.Drain() {
				return
			}
			if n := f.send(999999); n != 0 {
				r.Violate("delivery", "a value sent after every subscription was cancelled was delivered to %d channels", n)
			}
			return
		}
		if !r.Drain() {
			return
		}
		if len(sendersLeft) != nsend {
			r.Violate("stuck", "senders never finish although every subscriber reads or unsubscribes: %s", r.Stuck())
			return
		}
		close(stop)
		if !r.Drain() {
			return
		}
		if !r.MustEnd("after all senders finished and all subscribers unsubscribed") {
			return
		}
		if n := f.send(999999); n != 0 {
			r.Violate("delivery", "a value sent after every subscription was cancelled was delivered to %d channels", n)
			return
		}
		checkFeed(r, f, chans)
	}
}

var (
	liveSubs []event.Subscription
	quit     []chan struct{}
)

//go:norace
func addLive(id int64, s event.Subscription) { liveSubs[id] = s }

func subscriber[T any](r *kit.Run, f feed[T], ops []kit.Op, chans map[int64]chan T, stop chan struct{}, dynamic bool, ready chan struct{}) {
	var cur *fsub[T]
	for _, o := range ops {
		switch o.K {
		case "sub":
			stall(o.N)
			cur = &fsub[T]{id: o.A, ch: chans[o.A]}
			kit.Log(evSubInv, cur.id, 0, 0)
			cur.sub = f.sub(cur.ch, o.A)
			kit.Log(evSubRet, cur.id, 0, 0)
			if !dynamic {
				addLive(cur.id, cur.sub)
				kit.Publish()
				ready <- struct{}{}
			}
		case "recv":
			if cur == nil {
				continue
			}
			stall(o.A)
			if !dynamic {
				select {
				case v := <-cur.ch:
					kit.Log(evRecv, cur.id, f.val(v), 0)
				case <-quit[cur.id]:
					return
				}
				continue
			}
			select {
			case v := <-cur.ch:
				kit.Log(evRecv, cur.id, f.val(v), 0)
			case <-stop:
			}
		case "unsub", "unsub2":
			if cur == nil {
				continue
			}
			stall(o.A)
			kit.Hit(prAband)
			s := cur
			if o.K == "unsub2" {
				kit.Hit(prDblUns)
				done := make(chan struct{})
				r.Go("unsubscriber", func() {
					s.sub.Unsubscribe()
					close(done)
				})
				kit.Log(evUnsubInv, s.id, 0, 0)
				s.sub.Unsubscribe()
				kit.Log(evUnsubRet, s.id, 0, 0)
				<-done
			} else {
				kit.Log(evUnsubInv, s.id, 0, 0)
				s.sub.Unsubscribe()
				kit.Log(evUnsubRet, s.id, 0, 0)
			}
			// The error channel is closed, without a value.
			select {
			case e, ok := <-s.sub.Err():
				if ok {
					r.Violate("errchan", "a cancelled subscription's error channel produced %v", e)
				}
			default:
				r.Violate("errchan", "the error channel is still open after Unsubscribe returned")
			}
			s.sub.Unsubscribe() // again: no effect
			cur = nil
		}
	}
	if cur == nil {
		return
	}
	if !dynamic {
		for {
			select {
			case v := <-cur.ch:
				kit.Log(evRecv, cur.id, f.val(v), 0)
			case <-quit[cur.id]:
				return
			}
		}
	}
	// A minimised plan may lack the unsubscribe.
	for {
		select {
		case v := <-cur.ch:
			kit.Log(evRecv, cur.id, f.val(v), 0)
		case <-stop:
			cur.sub.Unsubscribe()
			return
		}
	}
}

// checkFeed checks the recorded history against the broadcast contract.
func checkFeed[T any](r *kit.Run, f feed[T], chans map[int64]chan T) {
	// Values still buffered count as delivered.
	ids := make([]int64, 0, len(chans))
	for id := range chans {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		ch := chans[id]
		for n := len(ch); n > 0; n-- {
			kit.Log(evLate, id, f.val(<-ch), 0)
		}
	}
	type span struct{ inv, ret uint64 }
	sends := map[int64]*span{}
	nsent := map[int64]int64{}
	var values []int64
	subsI, subsR, unsI, unsR := map[int64]uint64{}, map[int64]uint64{}, map[int64]uint64{}, map[int64]uint64{}
	got := map[int64][]int64{}
	const inf = ^uint64(0)
	for _, e := range kit.Recs(-1) {
		switch e.Kind {
		case evSendInv:
			sends[e.A] = &span{e.Seq, inf}
			values = append(values, e.A)
		case evSendRet:
			sends[e.A].ret = e.Seq
			nsent[e.A] = e.B
		case evSubInv:
			subsI[e.A] = e.Seq
		case evSubRet:
			subsR[e.A] = e.Seq
		case evUnsubInv:
			unsI[e.A] = e.Seq
		case evUnsubRet:
			unsR[e.A] = e.Seq
		case evRecv, evLate:
			got[e.A] = append(got[e.A], e.B)
		case evMisuse:
			if e.B == 0 {
				r.Violate("misuse", "a wrongly typed call (kind %d) was accepted", e.A)
			}
		}
	}
	if r.P("typed") >= 3 {
		// Equal values: how many each got must be how many were sent.
		kit.Hit(prSame)
		reported, received := int64(0), int64(0)
		all := true
		for _, v := range values {
			reported += nsent[v]
			all = all && sends[v].ret != inf
		}
		for _, id := range ids {
			received += int64(len(got[id]))
			least, most := 0, 0
			for _, v := range values {
				s := sends[v]
				i, okI := subsI[id]
				ret, okR := subsR[id]
				ui, okU := unsI[id]
				ur, okE := unsR[id]
				if okI && i < s.ret && !(okE && ur < s.inv) {
					most++
				}
				if okR && ret < s.inv && s.ret != inf && !(okU && ui < s.ret) {
					least++
				}
			}
			if n := len(got[id]); n < least || n > most {
				r.Violate("delivery", "subscription %d received one value, sent again and again, %d times; it was active during %d to %d of the sends", id, n, least, most)
				return
			}
		}
		if all && reported != received {
			r.Violate("count", "sends of equal values reported %d receivers altogether, but the channels got %d", reported, received)
		}
		return
	}
	count := map[int64]int64{}
	pos := map[int64]map[int64]int{}
	for _, id := range ids {
		pos[id] = map[int64]int{}
		for i, v := range got[id] {
			s := sends[v]
			if s == nil {
				r.Violate("delivery", "subscription %d received %d, which was never sent", id, v)
				return
			}
			if _, dup := pos[id][v]; dup {
				r.Violate("delivery", "subscription %d received value %d twice", id, v)
				return
			}
			pos[id][v] = i
			count[v]++
			if u, ok := unsR[id]; ok && u < s.inv {
				r.Violate("delivery", "subscription %d received value %d, sent after it was cancelled", id, v)
				return
			}
			if sr, ok := subsI[id]; !ok || s.ret < sr {
				r.Violate("delivery", "subscription %d received value %d, sent before it was made", id, v)
				return
			}
		}
		for _, v := range values {
			s := sends[v]
			if s.ret == inf {
				continue
			}
			sr, ok := subsR[id]
			if !ok || sr > s.inv {
				if ok && subsI[id] > s.inv && subsI[id] < s.ret {
					kit.Hit(prMidSub)
				}
				continue
			}
			if u, ok := unsI[id]; ok && u < s.ret {
				if u > s.inv {
					kit.Hit(prMidUns)
				}
				continue
			}
			if _, ok := pos[id][v]; !ok {
				r.Violate("delivery", "subscription %d, active during the whole send of %d, did not receive it (received %v)", id, v, got[id])
				return
			}
		}
	}
	for _, v := range values {
		if sends[v].ret != inf && nsent[v] != count[v] {
			r.Violate("count", "send of %d reported %d receivers, but %d channels got it", v, nsent[v], count[v])
			return
		}
	}
	// One global order: union of each subscriber's order and of the real-time
	// order of sends must be acyclic.
	adj := map[int64][]int64{}
	for _, id := range ids {
		for i := 1; i < len(got[id]); i++ {
			adj[got[id][i-1]] = append(adj[got[id][i-1]], got[id][i])
		}
	}
	for _, a := range values {
		for _, b := range values {
			if a != b && sends[a].ret < sends[b].inv {
				adj[a] = append(adj[a], b)
			}
		}
	}
	state := map[int64]int{}
	var visit func(v int64) bool
	visit = func(v int64) bool {
		state[v] = 1
		for _, w := range adj[v] {
			if state[w] == 1 || state[w] == 0 && !visit(w) {
				return false
			}
		}
		state[v] = 2
		return true
	}
	for _, v := range values {
		if state[v] == 0 && !visit(v) {
			r.Violate("order", "subscribers disagree about the order of the values, or it contradicts the order of the sends: %v", got)
			return
		}
	}
}

func init() {
	kit.Register(&kit.Prop{ID: "C01", Slow: true, Steps: 900, StepCap: 60000,
		Gen: func(g *kit.Gen) {
			dyn := g.P(1, 2)
			if dyn {
				g.Set("dynamic", 1)
			}
			feedGen(dyn)(g)
		},
		Exec: func(r *kit.Run) { feedExec(r.P("dynamic") == 1)(r) }})
	kit.Register(&kit.Prop{ID: "C02", Slow: true, Steps: 900, StepCap: 60000, Gen: feedGen(true), Exec: feedExec(true)})
}
