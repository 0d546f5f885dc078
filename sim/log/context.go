//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"time"

	"flychain/log"
	"flychain/zzverifsim/kit"
	"flychain/zzverifsim/log/alpha"
)

// C17: what is in a record: context inherited and added, deferred values,
// origin, time; and how the formats render it.
//
//	op "new": A uid, B stall, N: 0-3 parent (15: own child), 8.. context spec
//	op "log": A id, B stall, N: 0-2 level, 3-6 logger (15: own child, 14: package
//	functions, 13: Output depth 0, 12: Output depth 1), 7-8 site, 10.. context spec
func init() {
	kit.Register(&kit.Prop{ID: "C17", Slow: true, Steps: 900, Gen: ctxGen, Exec: ctxExec, Ticks: true, TickMax: 2e9})
}

// warmOrigins settles the width of the origin column.
func warmOrigins() {
	warm := log.New()
	warm.SetHandler(log.FuncHandler(func(r *log.Record) error {
		log.PrintOrigins(true)
		log.TerminalFormat(false).Format(r)
		log.PrintOrigins(false)
		return nil
	}))
	log.Root().SetHandler(warm.GetHandler())
	for lvl := int64(1); lvl < 6; lvl++ {
		for _, s := range sites {
			s.f(warm, lvl, strings.Repeat("w", 40), nil)
		}
		alpha.Root(lvl, "w", nil)
	}
	alpha.Deep(3, 0, "w", nil)
	log.Root().SetHandler(log.DiscardHandler())
}

var (
	prLazyEval = kit.Ctr("probe.deferred_value_evaluated")
	prLazyBad  = kit.Ctr("fault.invalid_deferred_value")
	prLazySkip = kit.Ctr("probe.deferred_value_of_filtered_record")
	prMadeCrit = kit.Ctr("probe.record_made_critical_on_its_way")
	prOdd      = kit.Ctr("fault.odd_number_of_arguments")
	prBadKey   = kit.Ctr("fault.key_that_is_no_string")
	prCtxMap   = kit.Ctr("probe.context_map")
	prReenter  = kit.Ctr("probe.deferred_value_logs")
	prOrigin   = kit.Ctr("probe.origin_printed")
)

// values with how each format shows them: logfmt, terminal, JSON.
type tstr struct{}

func (tstr) TerminalString() string { return "short" }
func (tstr) String() string         { return "the long form" }

type vstr struct{ a int }

func (v vstr) String() string { return fmt.Sprint("v", v.a) }

var longValue = strings.Repeat("long", 1100)

// ctxMsg is the message of a record, with all sorts of things in it.
func ctxMsg(r *kit.Run, id int64) string {
	return msgOf(id) + msgTails[kit.Mix(r.Plan.Index<<16^uint64(id))>>9%uint64(len(msgTails))]
}

var msgTails = []string{"", "", "", "", " a=b", "\ttab", "\nline two", ` "quoted"`, " é", "\x1b[31mred", "\x7f", "  ", " " + strings.Repeat("w", 60), "\x00", ` \n`}

var values = []struct {
	v                interface{}
	logfmt, term, js string
}{
	{5, "5", "5", "5"},
	{-99999, "-99999", "-99999", "-99999"},
	{1234567, "1,234,567", "1,234,567", "1234567"},
	{int64(-100000), "-100,000", "-100,000", "-100000"},
	{int64(math.MinInt64), "-9,223,372,036,854,775,808", "-9,223,372,036,854,775,808", "-9223372036854775808"},
	{uint64(math.MaxUint64), "18,446,744,073,709,551,615", "18,446,744,073,709,551,615", "18446744073709551615"},
	{int32(-1234567), "-1,234,567", "-1,234,567", "-1234567"},
	{uint32(4000000000), "4,000,000,000", "4,000,000,000", "4000000000"},
	{uint(100000), "100,000", "100,000", "100000"},
	{uint8(200), "200", "200", "200"},
	{int8(-7), "-7", "-7", "-7"},
	{uint16(65000), "65000", "65000", "65000"},
	{int16(-32000), "-32000", "-32000", "-32000"},
	{1.5, "1.500", "1.500", "1.5"},
	{float32(0.25), "0.250", "0.250", "0.25"},
	{true, "true", "true", "true"},
	{nil, "nil", "nil", "<nil>"},
	{"plain", "plain", "plain", "plain"},
	{"a b", "a b", "a b", "a b"},
	{"x=y", "x=y", "x=y", "x=y"},
	{"", "", "", ""},
	{`q"q`, `q"q`, `q"q`, `q"q`},
	{"é", "é", "é", "é"},
	{"tab\tnew\nline", "tab\tnew\nline", "tab\tnew\nline", "tab\tnew\nline"},
	{errors.New("bad thing"), "bad thing", "bad thing", "bad thing"},
	{(*vstr)(nil), "nil", "nil", "nil"},
	{vstr{3}, "v3", "v3", "v3"},
	{tstr{}, "the long form", "short", "the long form"},
	{(*tstr)(nil), "nil", "nil", "nil"},
	{time.Unix(1700000000, 0).UTC(), "2023-11-14T22:13:20+0000", "2023-11-14T22:13:20+0000", "2023-11-14T22:13:20+0000"},
	{big.NewInt(-7654321), "-7,654,321", "-7,654,321", "-7654321"},
	{(*big.Int)(nil), "<nil>", "<nil>", "<nil>"},
	{new(big.Int).Lsh(big.NewInt(1), 70), "1,180,591,620,717,411,303,424", "1,180,591,620,717,411,303,424", "1180591620717411303424"},
	{new(big.Int).SetUint64(math.MaxUint64), "18,446,744,073,709,551,615", "18,446,744,073,709,551,615", "18446744073709551615"},
	{new(big.Int).Lsh(big.NewInt(1), 64), "18,446,744,073,709,551,616", "18,446,744,073,709,551,616", "18446744073709551616"},
	{new(big.Int).Lsh(big.NewInt(-1), 63), "-9,223,372,036,854,775,808", "-9,223,372,036,854,775,808", "-9223372036854775808"},
	{new(big.Int).Lsh(big.NewInt(-1), 64), "-18,446,744,073,709,551,616", "-18,446,744,073,709,551,616", "-18446744073709551616"},
	{new(big.Int).Lsh(big.NewInt(-1), 68), "-295,147,905,179,352,825,856", "-295,147,905,179,352,825,856", "-295147905179352825856"},
	{99999, "99999", "99999", "99999"},
	{uint64(999999), "999,999", "999,999", "999999"},
	{longValue, longValue, longValue, longValue},
	{longValue + " =", longValue + " =", longValue + " =", longValue + " ="},
	{"\x7f\x1b[0m\r", "\x7f\x1b[0m\r", "\x7f\x1b[0m\r", "\x7f\x1b[0m\r"},
	{"\\n \\", "\\n \\", "\\n \\", "\\n \\"},
	{math.NaN(), "NaN", "NaN", "NaN"},
	{math.Inf(-1), "-Inf", "-Inf", "-Inf"},
	{float32(math.Inf(1)), "+Inf", "+Inf", "+Inf"},
	{[]int{1, 2}, "[1 2]", "[1 2]", "[1 2]"},
	{struct{ A int }{1}, "{A:1}", "{A:1}", "{A:1}"},
}

// badKeys are keys that are no strings.
var badKeys = []interface{}{42, true, vstr{7}, errors.New("a bad key")}

const oddMsg = "Normalized odd number of arguments by adding nil"

// cell is a deferred value: every evaluation returns a new serial number.
type cell struct {
	multi bool
	tail  string // what else it gives, if multi
	evals []cellEval
}

type cellEval struct {
	serial int64
	seq    uint64
}

var (
	cellSerial int64
	reenterTo  log.Handler
	reenterID  int64
)

//go:norace
func (c *cell) eval() int64 {
	kit.Hit(prLazyEval)
	cellSerial++
	c.evals = append(c.evals, cellEval{cellSerial, runtime.SimSeq()})
	return cellSerial
}

// exp is one expected pair.
type exp struct {
	k    string
	vi   int   // index into values
	cell *cell // deferred
	bad  bool  // invalid deferred value
	lit  string
	isL  bool        // lit counts
	null bool        // the nil padding of an odd number of arguments
	key  interface{} // a key that is no string; k is how it prints
}

type ctxSpec struct {
	exps []exp
	any  bool
	bad  bool
	cell []*cell
}

// mkctx builds the context arguments described by spec. Keys are unique to
// the run and the uid.
func mkctx(run string, uid, spec int64) ([]interface{}, *ctxSpec) {
	n := int(spec & 3)
	kind := spec >> 2 & 7
	s := &ctxSpec{}
	var ctx []interface{}
	h := kit.Mix(uint64(spec)<<20 ^ uint64(uid))
	if n == 3 && h>>50&15 == 0 { // many pairs
		n = 4 + int(h>>54&31)
	}
	for i := 0; i < n; i++ {
		h = kit.Mix(h)
		k := fmt.Sprintf("%s.%d.%d", run, uid, i)
		if h>>40&15 == 0 {
			k += " =é"
		} else if kind == 0 && i == 0 && h>>44&15 == 0 {
			k = ""
		}
		e := exp{k: k, vi: int(h % uint64(len(values)))}
		var v interface{} = values[e.vi].v
		if kind == 3 && i == 0 {
			c := &cell{multi: h>>33&3 == 0, tail: []string{"x", "0", "<nil>", ""}[h>>57&3]}
			e.cell = c
			s.cell = append(s.cell, c)
			ev := func() int64 { kit.Yield(); x := c.eval(); kit.Yield(); return x }
			switch {
			case c.multi && c.tail == "0":
				v = log.Lazy{Fn: func() (int64, int) { return ev(), 0 }}
			case c.multi && c.tail == "<nil>":
				v = log.Lazy{Fn: func() (int64, error) { return ev(), nil }}
			case c.multi:
				v = log.Lazy{Fn: func() (int64, string) { return ev(), c.tail }}
			case h>>57&3 == 0:
				v = log.Lazy{Fn: func() interface{} { return ev() }}
			default:
				v = log.Lazy{Fn: func() int64 { kit.Yield(); x := c.eval(); kit.Yield(); return x }}
			}
		}
		if kind == 3 && i > 0 && h>>57&1 == 0 { // any value may be deferred
			x := v
			v = log.Lazy{Fn: func() interface{} { kit.Yield(); return x }}
		}
		if kind == 4 && i == 0 {
			kit.Hit(prLazyBad)
			e.bad, s.bad = true, true
			switch h >> 33 & 7 {
			case 0:
				v = log.Lazy{Fn: 42}
			case 1:
				v = log.Lazy{Fn: func(int) int { return 1 }}
			case 2:
				v = log.Lazy{Fn: func() {}}
			case 3:
				v = log.Lazy{}
			case 4:
				v = log.Lazy{Fn: (func() int)(nil)}
			default:
				v = log.Lazy{Fn: "not a function"}
			}
		}
		var key interface{} = k
		if kind == 5 && i == n-1 {
			kit.Hit(prBadKey)
			key = badKeys[h>>36&3]
			e.key, e.k = key, fmt.Sprintf("%+v", key)
		}
		ctx = append(ctx, key, v)
		s.exps = append(s.exps, e)
	}
	if kind == 1 {
		kit.Hit(prOdd)
		k := fmt.Sprintf("%s.%d.odd", run, uid)
		ctx = append(append(make([]interface{}, 0, len(ctx)+8), ctx...), k)
		s.exps = append(s.exps, exp{k: k, null: true}, exp{k: "LOG15_ERROR", lit: oddMsg, isL: true})
	}
	if kind == 2 {
		kit.Hit(prCtxMap)
		m := log.Ctx{}
		for i := 0; i < len(ctx); i += 2 {
			m[ctx[i].(string)] = ctx[i+1]
		}
		ctx = []interface{}{m}
		s.any = true
	}
	return ctx, s
}

func ctxGen(g *kit.Gen) {
	g.Set("out", g.Pick(-1, -1, fmtLogfmt, fmtTerm, fmtTermColour, fmtJSON, fmtJSONPretty, fmtJSONOrdered, fmtJSONBare, fmtJSONPrettyBare, fmtJSONOrderedPretty, fmtJSONOrderedBare))
	g.Set("origins", g.Pick(0, 0, 1, 2))
	if g.P(1, 8) {
		g.Set("crit", int64(g.Range(1, 5)))
	}
	g.Set("max", g.Pick(5, 5, 5, 2, 3))
	g.Set("caller", g.Pick(0, 0, 0, 1, 2, 3))
	spec := func() int64 { return int64(g.Range(0, 3)) | g.Pick(0, 0, 0, 1, 2, 3, 3, 4, 5)<<2 | int64(g.N(256))<<5 }
	nb := g.Range(1, 3)
	g.Set("bases", int64(nb))
	for i := 0; i < nb; i++ {
		g.Set(fmt.Sprintf("base%d", i), spec())
		g.Set(fmt.Sprintf("parent%d", i), int64(g.N(i+1)))
	}
	n := g.Range(1, 4)
	g.Set("clients", int64(n))
	id := int64(1)
	for c := 0; c < n; c++ {
		k := g.Range(1, 5)
		for i := 0; i < k; i++ {
			st := int64(0)
			if g.P(1, 4) {
				st = int64(g.N(6))
			}
			if g.P(1, 3) {
				p := int64(g.N(nb))
				if g.P(1, 3) {
					p = 15
				}
				g.Op(c, "new", 1000+id, st, p|spec()<<8)
			} else {
				l := int64(g.N(nb))
				if x := g.N(8); x < 2 {
					l = 15
				} else if x == 2 {
					l = g.Pick(14, 14, 13, 12)
				}
				g.Op(c, "log", id, st, int64(g.Range(1, 5))|l<<3|int64(g.N(3))<<7|spec()<<10|g.Pick(0, 0, 0, 0, 0, 1)<<62)
			}
			id++
		}
	}
	if g.P(1, 6) {
		g.Op(0, "nested", 900, int64(g.N(4)))
	}
	if g.Plan.P["origins"] == 2 {
		for i := g.N(4); i > 0; i-- {
			g.Op(99, "origins", int64(g.N(2)), int64(g.N(10)))
		}
	}
}

// lnode is a logger with what its context must be.
type lnode struct {
	lg    log.Logger
	exps  []exp
	any   bool
	bad   bool
	cells []*cell
}

func (n *lnode) derive(ctx []interface{}, s *ctxSpec) *lnode {
	return &lnode{lg: n.lg.New(ctx...), exps: join(n.exps, s.exps), any: n.any || s.any, bad: n.bad || s.bad, cells: append(append([]*cell(nil), n.cells...), s.cell...)}
}

func join(a, b []exp) []exp { return append(append([]exp(nil), a...), b...) }

type ctxRec struct {
	id     int64
	o      kit.Op
	exps   []exp
	any    bool
	bad    bool
	cells  []*cell
	file   string // alpha/a.go
	line   int
	fn     string
	nested bool
	shared bool
}

var ctxRecs []*ctxRec

//go:norace
func addRec(x *ctxRec) { ctxRecs = append(ctxRecs, x) }

func ctxExec(r *kit.Run) {
	ctxRecs, cellSerial = nil, 0
	run := runKey(r)
	out := r.P("out")
	max := r.P("max")
	var h log.Handler
	if out < 0 {
		h = log.LazyHandler(log.FuncHandler(func(rec *log.Record) error {
			g := capture(0, rec)
			g.call = fmt.Sprintf("%+v", rec.Call)
			g.finish(nil)
			return nil
		}))
	} else {
		h = log.StreamHandler(&stream{r: r}, format(out))
	}
	switch r.P("caller") {
	case 1:
		h = log.CallerFileHandler(h)
	case 2:
		h = log.CallerFuncHandler(h)
	case 3:
		h = log.CallerStackHandler("%v", h)
	}
	if crit := r.P("crit"); crit > 0 {
		// Records of one level become critical ones on their way.
		next := h
		h = log.FuncHandler(func(rec *log.Record) error {
			if rec.Lvl == log.Lvl(crit) {
				kit.Hit(prMadeCrit)
				rec.Lvl = log.LvlCrit
			}
			return next.Log(rec)
		})
	}
	h = log.LvlFilterHandler(log.Lvl(max), h)
	log.PrintOrigins(r.P("origins") != 0)
	root := &lnode{lg: log.Root()}
	root.lg.SetHandler(h)
	var bases []*lnode
	for i := 0; i < int(r.P("bases")); i++ {
		p := root
		if j := int(r.P(fmt.Sprintf("parent%d", i))); j < i {
			p = bases[j]
		}
		ctx, s := mkctx(run, int64(500+i), r.P(fmt.Sprintf("base%d", i)))
		bases = append(bases, p.derive(ctx, s))
	}
	// Arguments all clients share, with room behind them.
	shared, sharedSpec := mkctx(run, 800, 2|1<<2)
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		r.Go("client", func() {
			own := bases[0]
			pick := func(i int64) *lnode {
				if i == 15 {
					return own
				}
				return bases[i]
			}
			for _, o := range ops {
				stall(o.B)
				switch o.K {
				case "new":
					ctx, s := mkctx(run, o.A, o.N>>8)
					own = pick(o.N&15).derive(ctx, s)
				case "nested":
					kit.Hit(prReenter)
					c := &cell{}
					c2 := &cell{}
					inner := &ctxRec{exps: []exp{{k: run + ".in", cell: c2}}, cells: []*cell{c2}, id: o.A + 1, o: kit.Op{A: o.A + 1, N: 1}, file: "alpha/a.go", fn: "alpha.A", line: siteLine(0, 1), nested: true}
					addRec(inner)
					x := &ctxRec{id: o.A, o: kit.Op{A: o.A, N: 1}, exps: []exp{{k: run + ".nest", cell: c}}, cells: []*cell{c}, file: "alpha/a.go", fn: "alpha.A", line: siteLine(0, 1)}
					addRec(x)
					guarded(o.A, func() error {
						alpha.A(root.lg, 1, ctxMsg(r, o.A), []interface{}{run + ".nest", log.Lazy{Fn: func() int64 {
							guarded(o.A+1, func() error {
								alpha.A(root.lg, 1, ctxMsg(r, o.A+1), []interface{}{run + ".in", log.Lazy{Fn: func() int64 { kit.Yield(); return c2.eval() }}})
								return nil
							})
							return c.eval()
						}}})
						return nil
					})
				case "log":
					ctx, s := mkctx(run, o.A, o.N>>10&(1<<50-1))
					lvl, who, site := o.N&7, o.N>>3&15, int(o.N>>7&3)
					x := &ctxRec{id: o.A, o: o, file: sites[site].file, line: siteLine(site, lvl)}
					x.file = []string{"alpha/a.go", "alpha/b.go", "beta/a.go"}[site]
					x.fn = []string{"alpha.A", "alpha.B", "beta.A"}[site]
					n := root
					if who < 12 || who == 15 {
						n = pick(who)
					}
					x.exps, x.any, x.bad = join(n.exps, s.exps), n.any || s.any, n.bad || s.bad
					x.cells = append(append([]*cell(nil), n.cells...), s.cell...)
					f := func() { sites[site].f(n.lg, lvl, ctxMsg(r, o.A), ctx) }
					switch who {
					case 14:
						x.file, x.line, x.fn = "alpha/a.go", alpha.RootFirst+2*(int(lvl)-1), "alpha.Root"
						f = func() { alpha.Root(lvl, ctxMsg(r, o.A), ctx) }
					case 13:
						x.file, x.line, x.fn = "alpha/a.go", alpha.OutLine, "alpha.Out"
						f = func() { alpha.Deep(lvl, 0, ctxMsg(r, o.A), ctx) }
					case 12:
						x.file, x.line, x.fn = "alpha/a.go", alpha.DeepLine, "alpha.Deep"
						f = func() { alpha.Deep(lvl, 1, ctxMsg(r, o.A), ctx) }
					}
					if x.shared = o.N>>62&1 == 1; x.shared {
						ctx = shared
						x.exps = join(n.exps, sharedSpec.exps)
						x.any, x.bad, x.cells = n.any, n.bad, n.cells
					}
					full := ctx[:cap(ctx)] // including the room behind them
					keep := append([]interface{}(nil), full...)
					addRec(x)
					guarded(o.A, func() error { f(); return nil })
					ctx = full
					for i := range keep {
						if _, ok := keep[i].(log.Lazy); !ok && !reflect.DeepEqual(keep[i], ctx[i]) && fmt.Sprint(keep[i]) != fmt.Sprint(ctx[i]) {
							r.Violate("arguments", "logging changed its caller's argument %d from %v to %v", i, keep[i], ctx[i])
						} else if _, ok2 := ctx[i].(log.Lazy); ok && !ok2 {
							r.Violate("arguments", "logging replaced its caller's deferred argument %d by %v", i, ctx[i])
						}
					}
				}
			}
			kit.Publish()
		})
	}
	if ops := r.Ops(99); len(ops) > 0 {
		r.Go("origins", func() {
			for _, o := range ops {
				stallQuiet(o.B)
				log.PrintOrigins(o.A == 1)
			}
		})
	}
	if !r.Drain() || !r.MustEnd("logging with contexts") {
		return
	}
	log.Root().SetHandler(log.DiscardHandler())
	used := map[int64]int64{}
	evals := map[*cell]int{}
	cellsOf := map[*cell]bool{}
	for _, x := range ctxRecs {
		if s := ctxJudge(r, x, out, max, used, evals); s != "" {
			r.Violate("record", "record %d: %s", x.id, s)
			return
		}
		for _, c := range x.cells {
			cellsOf[c] = true
		}
	}
	for c := range cellsOf {
		if len(c.evals) != evals[c] {
			r.Violate("deferred", "a deferred value was evaluated %d times for %d written records", len(c.evals), evals[c])
			return
		}
	}
}

func ctxJudge(r *kit.Run, x *ctxRec, out, max int64, used map[int64]int64, evals map[*cell]int) string {
	cl := callOf(x.id)
	l := gotsOf(x.id)
	lvl := x.o.N & 7
	if cl == nil {
		if x.nested && len(l) == 0 {
			return ""
		}
		return "never logged"
	}
	if cl.panicked {
		return "logging panicked: " + cl.pv
	}
	if lvl > max {
		if len(l) != 0 {
			return "was written although it was filtered out"
		}
		if len(x.cells) > 0 {
			kit.Hit(prLazySkip)
		}
		return ""
	}
	if len(l) != 1 {
		return fmt.Sprintf("was written %d times", len(l))
	}
	g := l[0]
	if lvl == r.P("crit") {
		lvl = 0
	}
	for _, c := range x.cells {
		evals[c]++
	}
	exps := append([]exp(nil), x.exps...)
	loc := fmt.Sprintf("flychain/zzverifsim/log/%s:%d", x.file, x.line)
	short := loc[strings.LastIndexByte(loc, '/')+1:]
	switch r.P("caller") {
	case 1:
		exps = append(exps, exp{k: "caller", lit: short, isL: true})
	case 2:
		exps = append(exps, exp{k: "fn", lit: "flychain/zzverifsim/log/" + x.fn, isL: true})
	case 3:
		exps = append(exps, exp{k: "stack", lit: "\x00[" + short, isL: true})
	}
	if x.bad {
		exps = append(exps, exp{k: "LOG15_ERROR", lit: "bad lazy", isL: true})
	}
	for i := range exps {
		if exps[i].key == nil {
			exps[i].key = exps[i].k
		}
	}
	// serial finds the evaluation a written deferred value came from.
	serial := func(c *cell, s string) string {
		for _, e := range c.evals {
			t := fmt.Sprint(e.serial)
			if c.multi {
				t = fmt.Sprintf("[%d %s]", e.serial, c.tail)
			}
			if s != t {
				continue
			}
			if e.seq < cl.inv || e.seq > cl.ret {
				return fmt.Sprintf("shows a deferred value evaluated outside its logging call (%s)", s)
			}
			if w := used[e.serial]; w != 0 {
				return fmt.Sprintf("shows the deferred value evaluated for record %d", w)
			}
			used[e.serial] = x.id
			return ""
		}
		return fmt.Sprintf("shows %q for a deferred value, which it never was", s)
	}
	if out < 0 {
		if g.msg != ctxMsg(r, x.id) || int64(g.lvl) != lvl {
			return "message or level changed"
		}
		if w := g.t.UnixNano() - 1700000000*1e9 + int64(1)<<60; w < cl.t0 || w > cl.t1 {
			return "does not carry the time of its logging call"
		}
		if g.call != loc {
			return fmt.Sprintf("has origin %s, was logged at %s", g.call, loc)
		}
		if len(g.ctx) != 2*len(exps) {
			return fmt.Sprintf("context has %d entries, want %d: %v", len(g.ctx), 2*len(exps), g.ctx)
		}
		taken := make([]bool, len(exps))
		for i, e := range exps {
			j := i
			if x.any {
				for j = 0; j < len(exps) && (taken[j] || g.ctx[2*j] != e.key || e.isL && g.ctx[2*j+1] != e.lit && e.lit[0] != 0); j++ {
				}
				if j == len(exps) {
					return fmt.Sprintf("context has no %s %v: %v", e.k, e.lit, g.ctx)
				}
				taken[j] = true
			}
			k, v := g.ctx[2*j], g.ctx[2*j+1]
			if k != e.key {
				return fmt.Sprintf("context has key %v at %d, want %s", k, i, e.k)
			}
			switch {
			case e.cell != nil:
				if s := serial(e.cell, fmt.Sprintf("%v", v)); s != "" {
					return s
				}
			case e.bad:
				if err, ok := v.(error); !ok || !strings.HasPrefix(err.Error(), "INVALID_LAZY") {
					return fmt.Sprintf("invalid deferred value shows as %v", v)
				}
			case e.null:
				if v != nil {
					return fmt.Sprintf("missing value shows as %v", v)
				}
			case e.isL:
				s, _ := v.(string)
				if s != e.lit && !(e.lit[0] == 0 && strings.HasPrefix(s, e.lit[1:])) {
					return fmt.Sprintf("context has %v for %s, want %q", v, e.k, e.lit)
				}
			default:
				if !reflect.DeepEqual(v, values[e.vi].v) && fmt.Sprint(v, values[e.vi].v) != "NaN NaN" {
					return fmt.Sprintf("context has %v for %s, want %v", v, e.k, values[e.vi].v)
				}
			}
		}
		return ""
	}
	w := want{lvl: log.Lvl(lvl), msg: ctxMsg(r, x.id), any: x.any}
	if r.P("origins") != 0 {
		kit.Hit(prOrigin)
		w.loc, w.maybe = loc, r.P("origins") == 2
	}
	ordered, _, _, isJS := isJSON(out)
	term := out == fmtTerm || out == fmtTermColour || ordered
	js := isJS && !ordered
	for _, e := range exps {
		var s string
		switch {
		case e.cell != nil:
			var alt []string
			for _, v := range e.cell.evals {
				if v.seq >= cl.inv && v.seq <= cl.ret {
					t := fmt.Sprint(v.serial)
					if e.cell.multi {
						t = fmt.Sprintf("[%d %s]", v.serial, e.cell.tail)
					}
					alt = append(alt, t)
				}
			}
			s = "\x01" + strings.Join(alt, "|")
		case e.bad:
			s = "\x00INVALID_LAZY"
		case e.null:
			s = "nil"
			if js {
				s = "<nil>"
			}
		case e.isL:
			s = e.lit
		case js:
			s = values[e.vi].js
		case term:
			s = values[e.vi].term
		default:
			s = values[e.vi].logfmt
		}
		switch _, ok := e.key.(string); {
		case ok:
			w.pairs = append(w.pairs, [2]string{e.k, s})
		case ordered:
			w.pairs = append(w.pairs, [2]string{"", s})
			w.badKeys = append(w.badKeys, e.k)
		case js:
			w.pairs = append(w.pairs, [2]string{"LOG15_ERROR", "\x03" + e.k}, [2]string{"", s})
		default:
			w.pairs = append(w.pairs, [2]string{"LOG15_ERROR", "\x03" + e.k})
		}
	}
	if err := checkText(out, g.text, w); err != nil {
		return fmt.Sprintf("was written as %q: %v", g.text, err)
	}
	return ""
}
