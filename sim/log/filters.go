//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"flychain/log"
	"flychain/zzverifsim/kit"
	"flychain/zzverifsim/log/alpha"
	"flychain/zzverifsim/log/beta"
)

// C16: filtering and reconfiguration while others log.
//
//	op "log":  A id, B stall, N: bits 0-2 level, 4-5 site, 6 child logger
//	op "verb": A level
//	op "vmod": A packed rules (6 bits: pattern*? see rules), N number of rules
//	op "vbad": A index of an invalid rule set
//	op "bt":   A site*8+level; "btbad": A index
//	op "seth": A sink;  op "swap": A target;  op "cswap": A target
func init() {
	kit.Register(&kit.Prop{ID: "C16", Slow: true, Steps: 700, Gen: filtGen, Exec: filtExec})
}

const (
	evCfgInv = 10 // A register, B value index
	evCfgRet = 11
)

const (
	regVerb = iota
	regVmod
	regBt
	regSink
	regSwap
	regChild
	nReg
)

var (
	prReconf  = kit.Ctr("probe.reconfigured_during_a_log_call")
	prVmod    = kit.Ctr("probe.emitted_by_per_file_rule_only")
	prBt      = kit.Ctr("probe.backtrace_emitted")
	prDropped = kit.Ctr("probe.record_filtered_out")
	prFunc    = kit.Ctr("probe.function_filter_asked")
	prNamed   = kit.Ctr("probe.level_given_by_name")
	prBadRule = kit.Ctr("fault.invalid_configuration")
)

// The call sites: alpha/a.go, alpha/b.go, beta/a.go.
var sites = []struct {
	f     func(log.Logger, int64, string, []interface{})
	file  string
	first int
}{
	{alpha.A, "a.go", alpha.AFirst},
	{alpha.B, "b.go", alpha.BFirst},
	{beta.A, "a.go", beta.AFirst},
}

func siteLine(s int, lvl int64) int { return sites[s].first + 2*(int(lvl)-1) }

// Which of the call sites each pattern names.
var patterns = []struct {
	s string
	m [3]bool
}{
	{"a.go", [3]bool{true, false, true}},
	{"b.go", [3]bool{false, true, false}},
	{"alpha/a.go", [3]bool{true, false, false}},
	{"alpha", [3]bool{true, true, false}},
	{"beta", [3]bool{false, false, true}},
	{"log/*", [3]bool{true, true, true}},
	{"alpha/*", [3]bool{true, true, false}},
	{"zz", [3]bool{}},
	{"pha", [3]bool{}},
	{"log/alpha", [3]bool{true, true, false}},
	{"log", [3]bool{}},
	{"zzverifsim/*/a.go", [3]bool{true, false, true}},
	{"log/*/b.go", [3]bool{false, true, false}},
	{"a", [3]bool{}},
	{".go", [3]bool{}},
	{"beta/b.go", [3]bool{}},
}

// The names levels are read from.
var lvlTexts = [][2]string{{"crit", "crit"}, {"error", "eror"}, {"warn", "warn"}, {"info", "info"}, {"debug", "dbug"}, {"trace", "trce"}}
var badLvls = []string{"", "loud", "warning", "errors", "3", "inf", "info,"}

var badRules = []string{"bad", "a.go=x", "=3", "a.go=", "a.go=1=2", "a.go=3,bad", "a.go=5,b.go=", "a.go 3"}
var badLocs = []string{"", "foo", "a.go", "a.go:", ":12", "a:12", "a.go:x", "a.go:1:2"}

func filtGen(g *kit.Gen) {
	if twinGen(g) {
		return
	}
	g.Set("wrap", g.Pick(0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9))
	g.Set("wraparg", int64(g.N(6)))
	g.Set("verb0", int64(g.N(6)))
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	bt := g.P(1, 10)
	hotS, hotL := g.N(3), g.Range(1, 5)
	if g.P(1, 2) {
		g.Set("verb0", int64(g.N(hotL)))
	}
	site := func() int64 {
		if g.P(2, 3) {
			return int64(hotL | hotS<<4)
		}
		return int64(g.Range(1, 5) | g.N(3)<<4)
	}
	id := int64(1)
	for c := 0; c < n; c++ {
		k := g.Range(1, 8)
		for i := 0; i < k; i++ {
			st := int64(0)
			if g.P(1, 3) {
				st = int64(g.N(8))
			}
			g.Op(c, "log", id, st, site()|int64(g.N(2))<<6)
			id++
		}
	}
	m := g.Range(1, 2)
	g.Set("configs", int64(m))
	for c := 0; c < m; c++ {
		k := g.Range(1, 6)
		for i := 0; i < k; i++ {
			st := int64(g.N(8))
			switch x := g.N(20); {
			case x < 5:
				if g.P(1, 12) {
					g.Op(50+c, "lbad", int64(g.N(len(badLvls))), st)
				} else {
					g.Op(50+c, "verb", int64(g.N(6)), st, int64(g.N(3)))
				}
			case x < 11:
				nr, fill := g.N(4), 0
				if g.P(1, 8) {
					nr = g.Range(4, 9)
				}
				if g.P(1, 16) {
					fill = g.Range(1, 70)
				}
				v := int64(0)
				for j := 0; j < nr; j++ {
					p, l := g.N(len(patterns)), g.N(7)
					if g.P(1, 2) {
						p, l = []int{0, 1, 0}[hotS], []int{hotL, hotL - 1}[g.N(2)]
					}
					v |= int64(p<<3|l) << (7 * j)
				}
				g.Op(50+c, "vmod", v, st, int64(nr|fill<<8))
			case x < 13:
				g.Op(50+c, "vbad", int64(g.N(len(badRules))), st)
			case x < 14:
				g.Op(50+c, "btbad", int64(g.N(len(badLocs))), st)
			case x < 15 && bt:
				g.Op(50+c, "bt", int64(g.N(3)*8+g.Range(1, 5)), st)
			case x < 17:
				g.Op(50+c, "seth", int64(g.N(3)), st)
			case x < 19:
				g.Op(50+c, "swap", int64(g.N(2)), st)
			default:
				g.Op(50+c, "cswap", int64(g.N(2)), st)
			}
		}
	}
}

type filtSink struct{ n int64 }

func (s *filtSink) Log(r *log.Record) error {
	capture(s.n, r).finish(nil)
	return nil
}

func rules(o kit.Op) string {
	var l []string
	for j := o.N >> 8; j > 0; j-- { // rules for other files
		l = append(l, fmt.Sprintf("other%d=%d", j, j%6))
	}
	for j := int64(0); j < o.N&255; j++ {
		x := o.A >> (7 * j) & 127
		sp := ""
		if x&1 == 1 {
			sp = " "
		}
		lvl := x & 7
		switch {
		case lvl == 0 && o.N&1 == 1: // as good as none
			lvl = -3
		case lvl == 7 && o.N&1 == 1:
			lvl = 100000
		}
		if (x+o.N)%8 == 5 { // an empty rule
			l = append(l, "")
		}
		l = append(l, fmt.Sprintf("%s%s=%s%d", patterns[x>>3].s, sp, sp, lvl))
	}
	return strings.Join(l, ",")
}

// ruleLevel is the level a rule set gives a site, or -1.
func ruleLevel(o kit.Op, site int) int64 {
	for j := int64(0); j < o.N&255; j++ {
		x := o.A >> (7 * j) & 127
		if x&7 > 0 && patterns[x>>3].m[site] {
			return x & 7
		}
	}
	return -1
}

type regWrite struct {
	reg      int
	op       kit.Op
	inv, ret uint64
}

var cfgs []*regWrite

//go:norace
func cfgBegin(reg int, o kit.Op) *regWrite {
	w := &regWrite{reg: reg, op: o, ret: 1 << 62}
	cfgs = append(cfgs, w)
	w.inv = kit.Log(evCfgInv, int64(reg), o.A, 0)
	return w
}

//go:norace
func (w *regWrite) end() { w.ret = kit.Log(evCfgRet, int64(w.reg), w.op.A, 0) }

// candidates are the writes a read in [inv, ret] may have returned.
func candidates(reg int, inv, ret uint64) []kit.Op {
	var l []kit.Op
	for _, w := range cfgs {
		if w.reg != reg || w.inv > ret {
			continue
		}
		over := false
		for _, x := range cfgs {
			over = over || x.reg == reg && w.ret < x.inv && x.ret < inv
		}
		if !over {
			l = append(l, w.op)
		}
	}
	return l
}

func filtExec(r *kit.Run) {
	if r.P("twin") == 1 {
		twinExec(r, "filter")
		return
	}
	cfgs = nil
	sinks := []log.Handler{&filtSink{0}, &filtSink{1}, &filtSink{2}}
	side := &filtSink{7}
	gl := log.NewGlogHandler(sinks[0])
	gl.Verbosity(log.Lvl(r.P("verb0")))
	wrapArg := r.P("wraparg")
	var h log.Handler = gl
	pass := func(o kit.Op) bool { return true }
	asked := make([]int, 64)
	switch r.P("wrap") {
	case 1:
		h = log.LvlFilterHandler(log.Lvl(wrapArg), gl)
		pass = func(o kit.Op) bool { return o.N&7 <= wrapArg }
	case 2:
		h = log.MatchFilterHandler("cls", int(wrapArg%3), gl)
		pass = func(o kit.Op) bool { return o.A%3 == wrapArg%3 }
	case 3:
		h = log.MatchFilterHandler("lvl", log.Lvl(wrapArg), gl)
		pass = func(o kit.Op) bool { return o.N&7 == wrapArg }
	case 4:
		h = log.MatchFilterHandler("absent", nil, gl)
		pass = func(o kit.Op) bool { return false }
	case 5:
		h = log.FilterHandler(func(r *log.Record) bool {
			kit.Hit(prFunc)
			id := idOf(r.Msg)
			asked[id]++ // the same record is not asked about twice: the answer may differ
			return ((id+int64(r.Lvl))%3 != wrapArg%3) == (asked[id] == 1)
		}, gl)
		pass = func(o kit.Op) bool { return (o.A+o.N&7)%3 != wrapArg%3 }
	case 6: // a value that reads the same is another value
		h = log.MatchFilterHandler("cls", int64(wrapArg%3), gl)
		pass = func(o kit.Op) bool { return false }
	case 8:
		h = log.MatchFilterHandler("msg", msgOf(wrapArg*3), gl)
		pass = func(o kit.Op) bool { return o.A == wrapArg*3 }
	case 9: // no call has a time of its caller's
		h = log.MatchFilterHandler("t", time.Unix(1700000000, 0), gl)
		pass = func(o kit.Op) bool { return false }
	case 7:
		h = log.LvlFilterHandler(log.Lvl(wrapArg), log.FilterHandler(func(r *log.Record) bool { return r.Call.Frame().Line != 0 && len(r.Ctx) >= 6 }, gl))
		pass = func(o kit.Op) bool { return o.N&7 <= wrapArg }
	}
	parent := log.New("p", 1)
	parent.SetHandler(h)
	child := parent.New("c", 2)
	for reg, v := range []int64{r.P("verb0"), 0, -1, 0, 0, 2} {
		cfgs = append(cfgs, &regWrite{reg: reg, op: kit.Op{A: v}, inv: 0, ret: 0})
	}
	targets := []log.Handler{h, side}
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		r.Go("client", func() {
			for _, o := range ops {
				stall(o.B)
				lg := parent
				if o.N>>6&1 == 1 {
					lg = child
				}
				guarded(o.A, func() error {
					sites[o.N>>4&3].f(lg, o.N&7, msgOf(o.A), []interface{}{"cls", int(o.A % 3), "cls", int((o.A + 1) % 3)})
					return nil
				})
			}
			kit.Publish()
		})
	}
	for c := 50; c < 50+int(r.P("configs")); c++ {
		ops := r.Ops(c)
		r.Go("config", func() {
			for _, o := range ops {
				stallQuiet(o.B)
				switch o.K {
				case "verb":
					lvl := log.Lvl(o.A)
					if o.N > 0 {
						var err error
						if lvl, err = log.LvlFromString(lvlTexts[o.A][o.N-1]); err != nil || lvl != log.Lvl(o.A) {
							r.Violate("config", "level name %q was read as %v (%v)", lvlTexts[o.A][o.N-1], int(lvl), err)
							return
						}
						kit.Hit(prNamed)
					}
					w := cfgBegin(regVerb, o)
					gl.Verbosity(lvl)
					w.end()
				case "lbad":
					kit.Hit(prBadRule)
					if _, err := log.LvlFromString(badLvls[o.A]); err == nil {
						r.Violate("config", "invalid level name %q was accepted", badLvls[o.A])
					}
				case "vmod":
					w := cfgBegin(regVmod, o)
					if err := gl.Vmodule(rules(o)); err != nil {
						r.Violate("config", "valid rules %q were rejected: %v", rules(o), err)
					}
					w.end()
				case "vbad":
					kit.Hit(prBadRule)
					if gl.Vmodule(badRules[o.A]) == nil {
						r.Violate("config", "invalid rules %q were accepted", badRules[o.A])
					}
				case "bt":
					w := cfgBegin(regBt, o)
					loc := fmt.Sprintf("%s:%d", sites[o.A>>3].file, siteLine(int(o.A>>3), o.A&7))
					if err := gl.BacktraceAt(loc); err != nil {
						r.Violate("config", "valid location %q was rejected: %v", loc, err)
					}
					w.end()
				case "btbad":
					kit.Hit(prBadRule)
					if gl.BacktraceAt(badLocs[o.A]) == nil {
						r.Violate("config", "invalid location %q was accepted", badLocs[o.A])
					}
				case "seth":
					w := cfgBegin(regSink, o)
					gl.SetHandler(sinks[o.A])
					w.end()
				case "swap":
					w := cfgBegin(regSwap, o)
					parent.SetHandler(targets[o.A])
					w.end()
				case "cswap":
					w := cfgBegin(regChild, o)
					child.SetHandler(targets[o.A])
					w.end()
				}
			}
			kit.Publish()
		})
	}
	if !r.Drain() || !r.MustEnd("reconfiguration while logging") {
		return
	}
	for c := 0; c < int(r.P("clients")); c++ {
		for _, o := range r.Ops(c) {
			if s := filtJudge(o, pass); s != "" {
				cl := callOf(o.A)
				r.Violate("filter", "record %d (level %s, site %d, logger %d): %s; configuration changes overlapping or before it: %s",
					o.A, lvlNames[o.N&7], o.N>>4&3, o.N>>6, s, filtHistory(cl))
				return
			}
		}
	}
}

func filtHistory(cl *call) string {
	var b strings.Builder
	for reg := 0; reg < nReg; reg++ {
		for _, o := range candidates(reg, cl.inv, cl.ret) {
			fmt.Fprintf(&b, "[%s %d", []string{"verbosity", "rules", "backtrace", "sink", "swap", "child-swap"}[reg], o.A)
			if reg == regVmod {
				fmt.Fprintf(&b, " %q", rules(o))
			}
			b.WriteString("] ")
		}
	}
	return b.String()
}

func filtJudge(o kit.Op, pass func(kit.Op) bool) string {
	cl := callOf(o.A)
	if cl.panicked {
		return "logging panicked: " + cl.pv
	}
	site := int(o.N >> 4 & 3)
	l := gotsOf(o.A)
	if len(l) > 1 {
		return fmt.Sprintf("written %d times", len(l))
	}
	over := 0
	for reg := 0; reg < nReg; reg++ {
		if len(candidates(reg, cl.inv, cl.ret)) > 1 {
			over = 1
		}
	}
	if over == 1 {
		kit.Hit(prReconf)
	}
	// Where the logger sends the record.
	viaMain, viaSide := false, false
	add := func(t int64) {
		viaMain = viaMain || t == 0
		viaSide = viaSide || t == 1
	}
	ts := candidates(regSwap, cl.inv, cl.ret)
	if o.N>>6&1 == 1 {
		for _, c := range candidates(regChild, cl.inv, cl.ret) {
			if c.A == 2 {
				for _, t := range ts {
					add(t.A)
				}
			} else {
				add(c.A)
			}
		}
	} else {
		for _, t := range ts {
			add(t.A)
		}
	}
	if len(l) == 1 && l[0].sink == 7 {
		if !viaSide {
			return "went to a handler the logger did not have"
		}
		if l[0].msg != msgOf(o.A) || l[0].lvl != log.Lvl(o.N&7) {
			return "was altered"
		}
		return ""
	}
	if !viaMain {
		if len(l) == 0 {
			return "was lost although its logger's handler accepts everything"
		}
		return "went to a handler the logger did not have"
	}
	if !pass(o) {
		if len(l) == 1 {
			return "was written although the filter in front rejects it"
		}
		if viaSide {
			// may not have been sent there
		}
		kit.Hit(prDropped)
		return ""
	}
	// The level the record is judged at.
	type cand struct {
		lvl int64
		bt  bool
	}
	var ls []cand
	plain, traced := false, false
	for _, b := range candidates(regBt, cl.inv, cl.ret) {
		m := false
		if b.A >= 0 {
			m = sites[b.A>>3].file == sites[site].file && siteLine(int(b.A>>3), b.A&7) == siteLine(site, o.N&7)
		}
		if m {
			traced = true
		} else {
			plain = true
		}
	}
	if plain {
		ls = append(ls, cand{o.N & 7, false})
	}
	if traced {
		ls = append(ls, cand{int64(log.LvlInfo), true})
	}
	decide := func(lvl int64) (may, must bool) {
		all := true
		for _, v := range candidates(regVerb, cl.inv, cl.ret) {
			if v.A >= lvl {
				may = true
			} else {
				all = false
			}
		}
		allR := true
		for _, v := range candidates(regVmod, cl.inv, cl.ret) {
			if ruleLevel(v, site) >= lvl {
				may = true
			} else {
				allR = false
			}
		}
		if allR && !all {
			kit.Hit(prVmod)
		}
		return may, all || allR
	}
	if len(l) == 0 {
		if viaSide {
			// The handler that accepts everything may not have been in place.
		}
		for _, c := range ls {
			if _, must := decide(c.lvl); !must {
				kit.Hit(prDropped)
				return ""
			}
		}
		return "was dropped although every configuration in force lets it through"
	}
	g := l[0]
	ok := false
	for _, s := range candidates(regSink, cl.inv, cl.ret) {
		ok = ok || s.A == g.sink
	}
	if !ok {
		return fmt.Sprintf("was written to sub-handler %d, which was not set", g.sink)
	}
	stack := strings.Contains(g.msg, "goroutine ")
	if !strings.HasPrefix(g.msg, msgOf(o.A)) || !stack && g.msg != msgOf(o.A) {
		return "message was altered"
	}
	for _, c := range ls {
		if c.bt != stack || int64(g.lvl) != c.lvl {
			continue
		}
		if may, _ := decide(c.lvl); may {
			if stack {
				kit.Hit(prBt)
			}
			return ""
		}
		return "was written although no configuration in force lets it through"
	}
	return fmt.Sprintf("was written at level %s, with a stack trace: %v", lvlNames[g.lvl], stack)
}
