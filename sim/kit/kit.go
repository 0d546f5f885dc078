//go:build go1.22

// Package kit is the harness side of the simulator: it generates a run from a
// seed, executes it under the deterministic scheduler, and reports.
package kit

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Op is one generated operation of a client.
type Op struct {
	C int    `json:"c"`
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	N int64  `json:"n,omitempty"`
}

// Sched is the scheduling policy of a run.
type Sched struct {
	Seed     uint64 `json:"seed"`
	SwitchP  uint32 `json:"switch_p"`
	TickP    uint32 `json:"tick_p"`
	TickMax  int64  `json:"tick_max"`
	BlockRnd bool   `json:"block_rnd"`
	PCT      bool   `json:"pct"`
	PCTDepth uint32 `json:"pct_depth"`
	PCTSteps uint32 `json:"pct_steps"`
	Starve   uint32 `json:"starve"`
}

// Plan is everything that determines a run besides the code.
type Plan struct {
	Prop  string           `json:"prop"`
	Index uint64           `json:"index"`
	Seed  uint64           `json:"seed"`
	P     map[string]int64 `json:"params"`
	Ops   []Op             `json:"ops"`
	Sched Sched            `json:"sched"`
	// Schedule, when not nil, replaces the policy: [goroutine, point, next, tick].
	Schedule [][4]int64 `json:"schedule,omitempty"`
	Follow   bool       `json:"follow,omitempty"`
}

// Prop is one property's workload and oracle.
type Prop struct {
	ID      string
	Steps   uint32 // typical run length in yields (for PCT)
	StepCap uint64
	Ticks   bool  // let the clock tick at yield points
	TickMax int64 // largest tick
	Once    bool  // needs a fresh process for every run
	Slow    bool  // let stalls take simulated time, too
	Gen     func(g *Gen)
	Exec    func(r *Run)
}

var props = map[string]*Prop{}

func Register(p *Prop) { props[p.ID] = p }

// Gen is the generator's state.
type Gen struct {
	Plan *Plan
	s    uint64
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func Mix(x uint64) uint64 { return mix(x) }

func (g *Gen) U64() uint64 { g.s++; return mix(g.s * 0x2545f4914f6cdd1d) }
func (g *Gen) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(g.U64() % uint64(n))
}
func (g *Gen) Range(a, b int) int    { return a + g.N(b-a+1) }
func (g *Gen) P(num, den int) bool   { return g.N(den) < num }
func (g *Gen) Set(k string, v int64) { g.Plan.P[k] = v }
func (g *Gen) Op(c int, k string, a ...int64) {
	o := Op{C: c, K: k}
	if len(a) > 0 {
		o.A = a[0]
	}
	if len(a) > 1 {
		o.B = a[1]
	}
	if len(a) > 2 {
		o.N = a[2]
	}
	g.Plan.Ops = append(g.Plan.Ops, o)
}

// Pick returns one of the choices.

// Odd returns v or, in a third of the cases, v and some more that is no round number.
func (g *Gen) Odd(v int64) int64 {
	if v > 1 && g.P(1, 3) {
		v += int64(g.U64() % uint64(v))
	}
	return v
}

func (g *Gen) Pick(c ...int64) int64 { return c[g.N(len(c))] }

const (
	baseNow  = int64(1) << 60
	baseWall = int64(1700000000) * 1e9
)

func makePlan(p *Prop, seed, idx uint64) *Plan {
	h := seed
	for _, c := range p.ID {
		h = mix(h ^ uint64(c))
	}
	pl := &Plan{Prop: p.ID, Index: idx, Seed: mix(h ^ mix(idx)), P: map[string]int64{}}
	g := &Gen{Plan: pl, s: pl.Seed}
	s := &pl.Sched
	s.Seed = g.U64()
	switch k := g.N(20); {
	case k < 9: // random walk
		s.BlockRnd = true
		s.SwitchP = uint32(g.Pick(1<<18, 1<<17, 1<<16, 1<<15, 1<<14, 1<<13, 1<<12))
	case k < 11: // preemption free
		s.BlockRnd = g.P(3, 4)
	default:
		s.PCT = true
		s.PCTDepth = uint32(g.Range(0, 6))
		s.PCTSteps = p.Steps * uint32(g.Range(1, 3)) / 2
	}
	if g.P(1, 5) {
		s.Starve = uint32(1) << g.N(8)
		if g.P(1, 2) {
			s.Starve |= uint32(1) << g.N(8)
		}
	}
	if p.Ticks && g.P(1, 2) {
		s.TickP = uint32(g.Pick(1<<17, 1<<15, 1<<13))
		s.TickMax = p.TickMax
	}
	p.Gen(g)
	if p.Slow && g.P(1, 4) {
		g.Set("slowns", g.Pick(1e6, 1e9, 60e9, 3600e9, 86400e9))
	}
	return pl
}

// Run is one execution.
type Run struct {
	Plan  *Plan
	vkind string
	vmsg  string
	ended bool
	nGo   int
	allow int
	post  []func()
	curID uint64
}

func (r *Run) P(k string) int64 { return r.Plan.P[k] }

// Ops returns the operations of client c.
func (r *Run) Ops(c int) []Op {
	var l []Op
	for _, o := range r.Plan.Ops {
		if o.C == c {
			l = append(l, o)
		}
	}
	return l
}

// Violate records the first violation of the run.
//
//go:norace
func (r *Run) Violate(kind, format string, a ...any) {
	if r.vkind == "" {
		r.vkind = kind
		r.vmsg = fmt.Sprintf(format, a...)
	}
}

//go:norace
func (r *Run) Bad() bool { return r.vkind != "" }

var (
	slowNS     int64
	faLong     int
	simulating bool // clients run, not the driver
)

// Stall lets others run n times; in some runs time passes, too.
//
//go:norace
func Stall(n int64) {
	for i := int64(0); i < n; i++ {
		runtime.Gosched()
	}
	if slowNS > 0 && simulating && n%3 == 1 {
		if slowNS >= 1e9 {
			Hit(faLong)
		}
		time.Sleep(time.Duration(n * slowNS))
	}
}

// Go starts a client. A panic in it is a violation.
func (r *Run) Go(name string, f func()) {
	go func() {
		done := false
		defer func() {
			if done {
				return
			}
			if e := recover(); e != nil {
				r.Violate("panic", "client %s panicked: %v\n%s", name, e, clip(string(debug.Stack()), 4000))
			} else {
				r.Violate("goexit", "client %s was terminated", name)
			}
		}()
		f()
		done = true
	}()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Settle runs until nothing is runnable, without advancing time.
func (r *Run) Settle() bool {
	if r.Bad() {
		return false
	}
	simulating = true
	rc := runtime.SimRun()
	simulating = false
	if rc != 0 {
		r.Violate("livelock", "no progress: step budget exhausted while goroutines keep running: %s", r.Stuck())
		return false
	}
	return !r.Bad()
}

// RunFor settles, then advances simulated time timer by timer until d has
// passed or no timer is pending.
func (r *Run) RunFor(d time.Duration) bool {
	end := runtime.SimNow() + int64(d)
	for n := 0; ; n++ {
		if !r.Settle() {
			return false
		}
		t := runtime.SimNextTimer()
		if t < 0 || t > end {
			break
		}
		if n > 200000 {
			r.Violate("livelock", "timers never drain")
			return false
		}
		runtime.SimAdvanceTo(t)
	}
	return true
}

// Drain is RunFor with a far horizon.
func (r *Run) Drain() bool { return r.RunFor(100 * 365 * 24 * time.Hour) }

// Live is the number of simulated goroutines that have not ended.
func (r *Run) Live() int { return runtime.SimLive() }

// Stuck describes the living goroutines.
func (r *Run) Stuck() string {
	var b strings.Builder
	runtime.SimDescribe(func(id int32, wait string, startpc, gopc uintptr) {
		fn := runtime.FuncForPC(startpc)
		fmt.Fprintf(&b, "[g%d %s", id, wait)
		if fn != nil {
			fmt.Fprintf(&b, " started as %s", fn.Name())
		}
		b.WriteString("] ")
	})
	return b.String()
}

// MustEnd checks that no simulated goroutine is left.
func (r *Run) MustEnd(what string) bool {
	if r.Bad() {
		return false
	}
	if n := runtime.SimLive(); n != 0 {
		r.Violate("stuck", "%s: %d goroutine(s) never finish: %s", what, n, r.Stuck())
		return false
	}
	return true
}

// ---- counters ----

const maxCtr = 256

var (
	ctrNames []string
	ctrVals  [maxCtr]uint64
)

// Ctr declares a named counter (fault kinds "fault.x", probes "probe.x").
func Ctr(name string) int {
	for i, n := range ctrNames {
		if n == name {
			return i
		}
	}
	if len(ctrNames) >= maxCtr {
		panic("too many counters")
	}
	ctrNames = append(ctrNames, name)
	return len(ctrNames) - 1
}

//go:norace
func Hit(id int) { ctrVals[id]++ }

// Yield is a scheduling point inside a simulated device or client.
func Yield() { runtime.SimYield() }

// Publish makes what the calling client did so far visible to the driver (for
// the race detector only; there is no effect on the schedule).
func Publish() { runtime.SimPublish() }

// Log records an observation; returns its global sequence number.
func Log(kind int32, a, b, c int64) uint64 { return runtime.SimLog(kind, a, b, c) }

// Recs returns the observations of one kind, in order.
func Recs(kinds ...int32) []runtime.SimRec {
	var l []runtime.SimRec
	n := runtime.SimLogLen()
	for i := 0; i < n; i++ {
		rec := runtime.SimLogAt(i)
		for _, k := range kinds {
			if rec.Kind == k || kinds[0] < 0 {
				l = append(l, rec)
				break
			}
		}
	}
	return l
}

// Rnd is a deterministic draw for fault decisions inside devices, in [0,n).
func Rnd(n int) int { return int(runtime.SimRand() % uint64(n)) }

// Cur is the property being decided.
var Cur string

// SetupRun hooks let areas reset simulated devices between runs.
var SetupRun []func()

// ---- execution ----

type Outcome struct {
	Kind     string     `json:"kind"`
	Msg      string     `json:"msg"`
	Plan     *Plan      `json:"plan,omitempty"`
	Decided  int        `json:"decided"`
	Overflow bool       `json:"overflow"`
	Hash     uint64     `json:"hash"`
	LogHash  uint64     `json:"log_hash"`
	Steps    uint64     `json:"steps"`
	Switches uint64     `json:"switches"`
	Schedule [][4]int64 `json:"schedule,omitempty"`
}

var traceMem []byte

func execPlan(p *Prop, pl *Plan) *Outcome {
	cfg := &runtime.SimConfig{
		Seed: pl.Sched.Seed, SwitchP: pl.Sched.SwitchP, TickP: pl.Sched.TickP, TickMax: pl.Sched.TickMax,
		BlockRnd: pl.Sched.BlockRnd, PCT: pl.Sched.PCT, PCTDepth: pl.Sched.PCTDepth, PCTSteps: pl.Sched.PCTSteps,
		Starve: pl.Sched.Starve, StepCap: p.StepCap, FairCap: p.StepCap,
		StartNow: baseNow, StartWall: baseWall,
	}
	if cfg.StepCap == 0 {
		cfg.StepCap, cfg.FairCap = 400000, 400000
	}
	if cfg.TickMax <= 0 {
		cfg.TickMax = 1
	}
	if pl.Follow {
		cfg.Replay = true
		for _, d := range pl.Schedule {
			cfg.Decisions = append(cfg.Decisions, runtime.SimDecision{G: uint32(d[0]), K: uint32(d[1]), To: uint32(d[2]), Tick: d[3]})
		}
		sort.Slice(cfg.Decisions, func(i, j int) bool {
			a, b := cfg.Decisions[i], cfg.Decisions[j]
			return a.G < b.G || a.G == b.G && a.K < b.K
		})
	}
	r := &Run{Plan: pl}
	slowNS, faLong = pl.P["slowns"], Ctr("fault.stall_of_seconds_to_weeks")
	Cur = p.ID
	for _, f := range SetupRun {
		f()
	}
	runtime.SimBegin(cfg)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Violate("panic", "panic: %v\n%s", e, clip(string(debug.Stack()), 4000))
			}
		}()
		p.Exec(r)
		if !r.Bad() {
			r.MustEnd("at the end of the run")
		}
	}()
	o := &Outcome{Kind: r.vkind, Msg: r.vmsg, Hash: runtime.SimHash(), LogHash: runtime.SimLogHash(), Steps: runtime.SimSteps(), Switches: runtime.SimSwitches()}
	st.steps += o.Steps
	st.switches += o.Switches
	t, tn := runtime.SimTicks()
	st.ticks += t
	st.tickNS += tn
	st.simNS += float64(runtime.SimNow() - baseNow)
	live := runtime.SimLive()
	logOv := runtime.SimLogOverflow()
	runtime.SimEnd()
	os.SimExit, net.SimDial = nil, nil
	for _, f := range r.post {
		f()
	}
	d, ov := runtime.SimTrace()
	o.Decided, o.Overflow = len(d), ov
	st.decisions += uint64(len(d))
	if len(d) > 0 {
		st.nontrivial[mix(o.Hash^mix(pl.Seed))] = struct{}{}
	}
	st.inter[mix(o.Hash)] = struct{}{}
	if logOv && o.Kind == "" {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: observation log overflow in", p.ID)
		os.Exit(4)
	}
	if o.Kind != "" || live != 0 {
		for _, x := range d {
			o.Schedule = append(o.Schedule, [4]int64{int64(x.G), int64(x.K), int64(x.To), x.Tick})
		}
	}
	return o
}

var st = struct {
	runs, steps, switches, ticks, decisions uint64
	tickNS                                  int64
	simNS                                   float64
	nontrivial, inter                       map[uint64]struct{}
}{nontrivial: map[uint64]struct{}{}, inter: map[uint64]struct{}{}}

// Main is the entry point of an area's simulator binary.
func Main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "VERIF_SEED")
	from := flag.Uint64("from", 0, "first run index")
	n := flag.Uint64("n", 1, "runs")
	stride := flag.Uint64("stride", 1, "index stride")
	secs := flag.Float64("secs", 0, "wall budget")
	trace := flag.String("trace", "", "shared trace file")
	genplan := flag.Bool("genplan", false, "print the plan of run -from")
	replay := flag.String("replay", "", "replay file")
	hashes := flag.Bool("hashes", false, "print a digest per run")
	samples := flag.Int("samples", 0, "print this many sample plans")
	flag.Parse()
	debug.SetGCPercent(-1)
	if runtime.GOMAXPROCS(0) != 1 {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: needs GOMAXPROCS=1")
		os.Exit(4)
	}
	out := bufio.NewWriter(os.Stdout)
	emit := func(tag string, v any) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(out, "%s %s\n", tag, b)
		out.Flush()
	}
	if *prop == "list" {
		for id := range props {
			fmt.Fprintln(out, id)
		}
		out.Flush()
		return
	}
	var rp *Plan
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
			os.Exit(4)
		}
		rp = &Plan{}
		if err := json.Unmarshal(b, rp); err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
			os.Exit(4)
		}
		*prop = rp.Prop
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: unknown property", *prop)
		os.Exit(4)
	}
	if *genplan {
		emit("PLAN", makePlan(p, *seed, *from))
		return
	}
	if *trace != "" {
		f, err := os.OpenFile(*trace, os.O_RDWR|os.O_CREATE, 0o600)
		if err == nil {
			err = f.Truncate(runtime.SimTraceBytes)
		}
		if err == nil {
			traceMem, err = syscall.Mmap(int(f.Fd()), 0, runtime.SimTraceBytes, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ERROR: trace:", err)
			os.Exit(4)
		}
	} else {
		traceMem = make([]byte, runtime.SimTraceBytes)
	}
	runtime.SimTraceTo(unsafe.Pointer(&traceMem[0]))
	hdr := (*[4]uint64)(unsafe.Pointer(&traceMem[0]))
	if rp != nil {
		hdr[0] = rp.Index
		o := execPlan(p, rp)
		emit("OUTCOME", o)
		if o.Kind != "" {
			os.Exit(1)
		}
		return
	}
	start := time.Now()
	idx := *from
	for i := uint64(0); i < *n; i++ {
		if *secs > 0 && time.Since(start).Seconds() > *secs {
			break
		}
		hdr[0], hdr[1], hdr[2] = idx, 0, 0
		pl := makePlan(p, *seed, idx)
		o := execPlan(p, pl)
		st.runs++
		if *hashes {
			fmt.Fprintf(out, "H %d %016x %016x %d\n", idx, o.Hash, o.LogHash, o.Steps)
		}
		if int(i) < *samples {
			emit("SAMPLE", pl)
		}
		if o.Kind != "" {
			o.Plan = pl
			emit("FOUND", o)
			os.Exit(1)
		}
		if i%64 == 63 {
			gcMaybe()
		}
		idx += *stride
	}
	cs := map[string]uint64{}
	for i, nme := range ctrNames {
		cs[nme] = ctrVals[i]
	}
	a, b := []string{}, []string{}
	for h := range st.nontrivial {
		a = append(a, fmt.Sprintf("%x", h))
	}
	for h := range st.inter {
		b = append(b, fmt.Sprintf("%x", h))
	}
	emit("STATS", map[string]any{"runs": st.runs, "steps": st.steps, "switches": st.switches, "decisions": st.decisions,
		"ticks": st.ticks, "tick_ns": st.tickNS, "sim_ns": st.simNS, "counters": cs, "nontrivial": a, "interleavings": b,
		"secs": time.Since(start).Seconds()})
}

func gcMaybe() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 256<<20 {
		runtime.GC()
	}
}
