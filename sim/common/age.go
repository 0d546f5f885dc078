//go:build go1.22

package main

import (
	"fmt"
	"math"
	"regexp"
	"runtime"
	"strconv"
	"time"

	"flychain/common"
	"flychain/zzverifsim/kit"
)

// C26: ages printed while the wall clock jumps.
//
//	op "mark": A slot: remember now; N 1 without monotonic reading, 2 shifted by
//	a round trip through text, 3 in another time zone
//	op "at":   A slot, B offset in ns from now (past if negative), N as above
//	op "age":  A slot
//	op "zero": the age of the zero time; "far": the age of a far future time
//	op "pass": B ns to sleep
//	op "jump": B ns
func init() {
	kit.Register(&kit.Prop{ID: "C26", Steps: 300, Ticks: true, TickMax: 3e9, Gen: ageGen, Exec: ageExec})
}

var (
	faJump     = kit.Ctr("fault.wall_clock_jump")
	prAges     = kit.Ctr("probe.age_printed")
	prFuture   = kit.Ctr("probe.age_of_future_time")
	prJumped   = kit.Ctr("probe.wall_clock_jumped_during_call")
	prTicked   = kit.Ctr("probe.time_passed_during_call")
	prExact    = kit.Ctr("probe.age_of_exactly_whole_units")
	prMonotone = kit.Ctr("probe.age_unaffected_by_wall_jump")
	prTrunc    = kit.Ctr("probe.age_truncated_to_three_units")
)

var unitNS = []int64{360 * 86400e9, 30 * 86400e9, 7 * 86400e9, 86400e9, 3600e9, 60e9, 1e9}
var unitSym = []string{"y", "mo", "w", "d", "h", "m", "s"}

func genSpan(g *kit.Gen) int64 {
	switch g.N(4) {
	case 0: // exactly whole units
		v := int64(0)
		for k := g.Range(1, 4); k > 0; k-- {
			v += unitNS[g.N(7)] * int64(g.Range(1, 4))
		}
		return v
	case 1: // just off a unit
		return unitNS[g.N(7)]*int64(g.Range(1, 60)) + g.Pick(-1, 0, 1, -1e9, 1e9)
	case 2:
		return int64(g.U64() % uint64(unitNS[g.N(7)]*int64(g.Range(1, 20))))
	}
	return g.Pick(0, 1, 999999999, 1e9, 1000000001, 86400e9*29, 86400e9*359, 86400e9*360)
}

func ageGen(g *kit.Gen) {
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	g.Set("slots", 3)
	for c := 0; c < n; c++ {
		for k := g.Range(3, 10); k > 0; k-- {
			switch g.N(10) {
			case 0:
				g.Op(c, "mark", int64(g.N(3)), 0, int64(g.N(4)))
			case 1, 2, 3:
				off := -genSpan(g)
				if g.P(1, 8) {
					off = -off
				}
				g.Op(c, "at", int64(g.N(3)), off, int64(g.N(4)))
			case 4:
				g.Op(c, "pass", 0, genSpan(g)%(9*unitNS[0]))
			case 5:
				g.Op(c, []string{"zero", "far"}[g.N(2)])
			default:
				g.Op(c, "age", int64(g.N(3)))
			}
		}
	}
	if g.P(2, 3) {
		for k := g.Range(1, 3); k > 0; k-- {
			g.Op(9, "pass", 0, genSpan(g)%unitNS[0]*int64(g.N(2)))
			g.Op(9, "jump", 0, genSpan(g)*g.Pick(1, -1))
		}
	}
}

// slot is a remembered time. ref is when it was: on the monotonic clock, or, if
// it carries no monotonic reading, on the wall clock.
type slot struct {
	t    time.Time
	mono bool
	ref  int64
	set  bool
}

type ageCall struct {
	c, i     int
	s        slot
	kind     string
	inv, ret uint64
	m0, m1   int64
	o0       int64
	got      string
}

type jump struct {
	seq uint64
	off int64
}

type ageState struct {
	calls []*ageCall
	jumps []jump
}

var ages *ageState

//go:norace
func wallOff() int64 { return runtime.SimWall() - runtime.SimNow() }

//go:norace
func (a *ageState) begin(x *ageCall) {
	a.calls = append(a.calls, x)
	x.m0, x.o0 = runtime.SimNow(), wallOff()
	x.inv = kit.Log(1, int64(len(a.calls)), 0, 0)
}

//go:norace
func (a *ageState) end(x *ageCall) {
	x.m1 = runtime.SimNow()
	x.ret = kit.Log(2, 0, 0, 0)
}

//go:norace
func (a *ageState) jump(d int64) {
	if w := runtime.SimWall() + d; w < 86400e9*365 || w > 86400e9*365*200 {
		return // clocks do not leave 1971 to 2169
	}
	kit.Hit(faJump)
	runtime.SimWallJump(d)
	a.jumps = append(a.jumps, jump{kit.Log(3, d, 0, 0), wallOff()})
}

// moment reads both clocks at one instant.
//
//go:norace
func moment() (time.Time, int64, int64) { return time.Now(), runtime.SimNow(), runtime.SimWall() }

func makeSlot(off, how int64) slot {
	t, m, w := moment()
	s := slot{t: t.Add(time.Duration(off)), mono: true, ref: m + off, set: true}
	switch how {
	case 1:
		s.t = s.t.Round(0)
	case 2:
		b, err := s.t.MarshalText()
		if err != nil || s.t.UnmarshalText(b) != nil {
			panic("time text")
		}
	case 3:
		s.t = s.t.In(time.FixedZone("X", -7*3600)) // strips the monotonic reading
	default:
		return s
	}
	s.mono, s.ref = false, w+off
	return s
}

func ageExec(r *kit.Run) {
	ages = &ageState{}
	for c := 0; c < 10; c++ {
		ops := r.Ops(c)
		if len(ops) == 0 {
			continue
		}
		r.Go("client", func() {
			defer kit.Publish()
			slots := make([]slot, r.P("slots"))
			for i, o := range ops {
				switch o.K {
				case "mark":
					slots[o.A] = makeSlot(0, o.N)
				case "at":
					slots[o.A] = makeSlot(o.B, o.N)
				case "pass":
					time.Sleep(time.Duration(o.B))
				case "jump":
					ages.jump(o.B)
				default:
					x := &ageCall{c: c, i: i, kind: o.K}
					switch o.K {
					case "age":
						x.s = slots[o.A]
						if !x.s.set {
							continue
						}
					case "far":
						x.s.t = time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)
					}
					p := common.PrettyAge(x.s.t)
					ages.begin(x)
					s := p.String()
					ages.end(x)
					x.got = s
				}
			}
		})
	}
	if !r.Drain() || !r.MustEnd("printing ages") {
		return
	}
	for _, x := range ages.calls {
		if !ageCheck(r, x) {
			return
		}
	}
}

func refAge(d int64) string {
	s, n := "", 0
	rest := d
	for i, u := range unitNS {
		if d/u > 0 {
			s += fmt.Sprint(d/u) + unitSym[i]
			d %= u
			if n++; n == 3 {
				break
			}
		}
	}
	if rest < 1e9 {
		return "0"
	}
	return s
}

var ageRe = regexp.MustCompile(`^(?:(\d+)y)?(?:(\d+)mo)?(?:(\d+)w)?(?:(\d+)d)?(?:(\d+)h)?(?:(\d+)m)?(?:(\d+)s)?$`)

// parseAge returns the age a text stands for, or -1.
func parseAge(s string) int64 {
	if s == "0" {
		return 0
	}
	m := ageRe.FindStringSubmatch(s)
	if m == nil || s == "" {
		return -1
	}
	v, n := int64(0), 0
	for i, u := range unitNS {
		if m[i+1] == "" {
			continue
		}
		k, err := strconv.ParseInt(m[i+1], 10, 64)
		if err != nil || k == 0 {
			return -1
		}
		v += k * u
		n++
	}
	if n > 3 || refAge(v) != s {
		return -1
	}
	return v
}

func ageCheck(r *kit.Run, x *ageCall) bool {
	kit.Hit(prAges)
	switch x.kind {
	case "far":
		if x.got != "0" {
			r.Violate("age", "the age of a time in the far future was printed as %q", x.got)
			return false
		}
		return true
	case "zero":
		if want := refAge(math.MaxInt64); x.got != want {
			r.Violate("age", "the age of the zero time was printed as %q, want %q", x.got, want)
			return false
		}
		return true
	}
	offs := []int64{x.o0}
	for _, j := range ages.jumps {
		if j.seq > x.inv && j.seq < x.ret {
			offs = append(offs, j.off)
		}
	}
	if x.s.mono {
		if len(ages.jumps) > 0 {
			kit.Hit(prMonotone)
		}
		offs = []int64{0}
	}
	if len(offs) > 1 {
		kit.Hit(prJumped)
	}
	if x.m1 > x.m0 {
		kit.Hit(prTicked)
	}
	v := parseAge(x.got)
	for _, o := range offs {
		lo, hi := x.m0+o-x.s.ref, x.m1+o-x.s.ref
		if lo < 0 {
			kit.Hit(prFuture)
		}
		if lo == hi && lo > 0 {
			if parseAge(refAge(lo)) == lo {
				kit.Hit(prExact)
			} else if lo > 3600e9 {
				kit.Hit(prTrunc)
			}
		}
		if v >= 0 && v >= parseAge(refAge(max(lo, 0))) && v <= parseAge(refAge(max(hi, 0))) {
			return true
		}
	}
	lo, hi := x.m0+offs[0]-x.s.ref, x.m1+offs[0]-x.s.ref
	r.Violate("age", "an age between %v and %v (monotonic reading: %v, other possible clocks: %d) was printed as %q", time.Duration(lo), time.Duration(hi), x.s.mono, len(offs)-1, x.got)
	return false
}
