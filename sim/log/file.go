//go:build go1.22

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"flychain/log"
	"flychain/zzverifsim/kit"
)

// C19: the file handler on a simulated disk, over several incarnations of the
// process. Client c of incarnation i is i*10+c; 8 heals the disk, 9 crashes.
//
//	op "log": A id, B stall, N: 0-2 level, 3-4 how (handler, logger, root), 5..
//	payload length, or above 90 a size class; a critical record through a logger ends the process
//	op "heal", "crash": B stall
func init() {
	kit.Register(&kit.Prop{ID: "C19", Slow: true, Steps: 700, Gen: fileGen, Exec: fileExec})
}

const logPath = kit.DiskRoot + "app.log"

var (
	prReopen = kit.Ctr("probe.reopened_existing_log")
	prTorn   = kit.Ctr("probe.torn_record_in_file")
	prCrit   = kit.Ctr("probe.critical_record_ended_process")
	prHeal   = kit.Ctr("fault.disk_healed")
	prGhost  = kit.Ctr("probe.record_in_flight_at_crash")
	prAppend = kit.Ctr("probe.two_handlers_one_file")
)

func fileGen(g *kit.Gen) {
	if twinGen(g) {
		return
	}
	incs := g.Range(1, 3)
	g.Set("incs", int64(incs))
	g.Set("init", int64(g.N(3)))
	if g.P(1, 300) { // a log that has grown large
		g.Set("init", g.Pick(3, 3, 3, 4))
	}
	g.Set("lat", g.Pick(0, 0, 1, 2, 3))
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	g.Set("must", g.Pick(0, 0, 1))
	if g.P(1, 3) {
		g.Set("openerr", g.Pick(200, 600))
	}
	class := g.N(4)
	if class&1 != 0 {
		g.Set("eintr", g.Pick(0, 100, 400))
		g.Set("short", g.Pick(0, 200, 600))
	}
	if class&2 != 0 {
		g.Set("eio", g.Pick(0, 100, 400))
		g.Set("cap", g.Pick(0, 40, 130, 300))
	}
	if g.Plan.P["short"] == 0 && g.Plan.P["cap"] == 0 {
		g.Set("two", g.Pick(0, 1))
	}
	large := g.Plan.P["cap"] == 0 && g.P(1, 3)
	pay := func() int64 {
		if large && g.P(1, 4) {
			return int64(g.Range(90, 92))
		}
		return int64(g.N(90))
	}
	id := int64(1)
	for i := 0; i < incs; i++ {
		for c := 0; c < n; c++ {
			for k := g.Range(1, 4); k > 0; k-- {
				st := int64(0)
				if g.P(1, 4) {
					st = int64(g.N(6))
				}
				lvl := int64(g.Range(1, 5))
				how := g.Pick(0, 0, 1, 2)
				if how != 0 && g.P(1, 8) {
					lvl = 0
				}
				g.Op(i*10+c, "log", id, st, lvl|how<<3|pay()<<5)
				id++
			}
		}
		if g.P(1, 2) {
			g.Op(i*10+9, "crash", 0, int64(g.N(60)))
		}
		if class&2 != 0 && g.P(1, 3) {
			g.Op(i*10+8, "heal", 0, int64(g.N(30)))
		}
	}
}

func fileText(id, n int64) string {
	if n >= 90 {
		n = []int64{4064, 9000, 66000}[n-90] + id
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (int(id)*7+i)%17)
	}
	return fmt.Sprintf("REC %07d %s END\n", id, b)
}

// frec is one record as its client and the process saw it.
type frec struct {
	op       kit.Op
	inc      int
	inv, ret uint64
	started  bool
	returned bool // while its process was alive
	err      error
	healthy  bool // no faults that lose data since the call began
	full     bool // it must be complete
}

type fileState struct {
	recs    []*frec
	crashed []uint64
	healed  bool
	exits   []int
	exitInc int
	exitID  int64
	lossy   bool
	opened  int
	created bool
}

var fst *fileState

//go:norace
func (x *frec) begin() {
	x.started = true
	x.inv = kit.Log(evLogInv, x.op.A, 0, 0)
	x.healthy = !fst.lossy || fst.healed
}

//go:norace
func (x *frec) end(err error) {
	if kit.DiskProc() != x.inc {
		return
	}
	x.returned, x.err = true, err
	x.ret = kit.Log(evLogRet, x.op.A, 0, 0)
}

//go:norace
func fileCrash() {
	fst.crashed[kit.DiskProc()] = kit.Log(evCrash, 0, 0, 0)
	kit.DiskCrash()
}

//go:norace
func fileHeal() {
	fst.healed = true
	kit.DiskSetFaults(kit.DiskFaults{})
}

//go:norace
func fileExit(code int) {
	g := runtime.SimSelf()
	_ = g
	if kit.DiskProc() >= len(fst.crashed) {
		return
	}
	fst.exits = append(fst.exits, code)
	if x := critOf(); x != nil {
		// It counts as acknowledged: the program chose this moment to end.
		x.returned = true
		x.ret = kit.Log(evLogRet, x.op.A, 0, 0)
		fst.exitID = x.op.A
	}
	kit.Hit(prCrit)
	fileCrash()
}

var critNow []critCall

type critCall struct {
	g int32
	x *frec
}

//go:norace
func critSet(x *frec) { critNow = append(critNow, critCall{runtime.SimSelf(), x}) }

//go:norace
func critOf() *frec {
	for _, c := range critNow {
		if c.g == runtime.SimSelf() && c.x.inc == kit.DiskProc() {
			return c.x
		}
	}
	return nil
}

const evCrash = 9

// openLog opens the handler, retrying while the disk refuses.
func openLog(r *kit.Run, inc int, fm log.Format) log.Handler {
	for try := 0; ; try++ {
		if try == 6 {
			fileNoOpenErr(r)
		}
		if kit.DiskProc() != inc {
			return nil
		}
		var h log.Handler
		var err error
		if r.P("must") == 1 {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if x, ok := e.(error); ok {
							err = x
						} else {
							r.Violate("open", "Must panicked with %v, which is no error", e)
						}
					}
				}()
				h = log.Must.FileHandler(logPath, fm)
			}()
		} else {
			h, err = log.FileHandler(logPath, fm)
		}
		if kit.DiskProc() != inc || r.Bad() {
			return nil
		}
		if err == nil {
			if h == nil {
				r.Violate("open", "opening the log returned neither a handler nor an error")
				return nil
			}
			fileOpened()
			return h
		}
		if h != nil {
			r.Violate("open", "opening the log returned a handler and the error %v", err)
			return nil
		}
		if try >= 6 {
			r.Violate("open", "opening the log failed with %v although the disk works", err)
			return nil
		}
	}
}

//go:norace
func fileOpened() { fst.opened++ }

//go:norace
func filePolicy(r *kit.Run, openErr int) kit.DiskFaults {
	if fst.healed {
		return kit.DiskFaults{}
	}
	return kit.DiskFaults{Short: int(r.P("short")), EINTR: int(r.P("eintr")), EIO: int(r.P("eio")),
		OpenErr: openErr, Capacity: int(r.P("cap")), Latency: int(r.P("lat"))}
}

//go:norace
func fileNoOpenErr(r *kit.Run) { kit.DiskSetFaults(filePolicy(r, 0)) }

func fileExec(r *kit.Run) {
	if r.P("twin") == 1 {
		twinExec(r, "file")
		return
	}
	incs := int(r.P("incs"))
	fst = &fileState{crashed: make([]uint64, incs), lossy: r.P("eio") > 0 || r.P("cap") > 0}
	critNow = nil
	kit.OnExit(fileExit)
	initial := ""
	switch r.P("init") {
	case 1:
		kit.DiskPut(logPath, nil)
	case 2:
		initial = "old line 1\nold line 2 without an end"
		kit.DiskPut(logPath, []byte(initial))
	case 3, 4:
		initial = strings.Repeat("old line after old line\n", []int{60000, 700000}[r.P("init")-3])
		kit.DiskPut(logPath, []byte(initial))
	}
	created := r.P("init") == 0
	fm := log.FormatFunc(func(rec *log.Record) []byte {
		id := idOf(rec.Msg)
		n, _ := rec.Ctx[len(rec.Ctx)-1].(int)
		return []byte(fileText(id, int64(n)))
	})
	for inc := 0; inc < incs; inc++ {
		inc := inc
		if inc > 0 && kit.DiskProc() < inc {
			fileCrash() // the previous process ends, without a crash of its own
		}
		kit.DiskSetFaults(filePolicy(r, int(r.P("openerr"))))
		fst.opened = 0
		if _, ok := kit.DiskGet(logPath); ok && inc > 0 {
			kit.Hit(prReopen)
		}
		ready := make(chan struct{})
		nh := 1
		if r.P("two") == 1 {
			nh = 2
			kit.Hit(prAppend)
		}
		hs := make([]log.Handler, nh)
		lgs := make([]log.Logger, nh)
		r.Go("main", func() {
			defer close(ready)
			kit.DiskJoin(inc)
			for i := range hs {
				hs[i] = openLog(r, inc, fm)
				if hs[i] == nil {
					hs = nil
					break
				}
				lgs[i] = log.New()
				lgs[i].SetHandler(hs[i])
			}
			if hs != nil {
				log.Root().SetHandler(hs[0])
				fileNoOpenErr(r)
			}
			kit.Publish()
		})
		for c := 0; c < int(r.P("clients")); c++ {
			c := c
			var l []*frec
			for _, o := range r.Ops(inc*10 + c) {
				x := &frec{op: o, inc: inc}
				l = append(l, x)
				fst.recs = append(fst.recs, x)
			}
			r.GoProcess("client", func() {
				defer kit.Publish()
				<-ready
				if hs == nil {
					return
				}
				for _, x := range l {
					o := x.op
					stallQuiet(o.B)
					if kit.DiskProc() != inc {
						return
					}
					h, lg := hs[c%nh], lgs[c%nh]
					ctx := []interface{}{"n", int(o.N >> 5)}
					x.begin()
					var err error
					switch how := o.N >> 3 & 3; {
					case how == 0:
						err = h.Log(&log.Record{Lvl: log.Lvl(o.N & 7), Msg: msgOf(o.A), Ctx: ctx, KeyNames: keyNames})
					case o.N&7 == 0:
						critSet(x)
						if how == 1 {
							lg.Crit(msgOf(o.A), ctx...)
						} else {
							log.Crit(msgOf(o.A), ctx...)
						}
						r.Violate("exit", "the program went on after logging critical record %d", o.A)
					case how == 1:
						logAt(lg, o.N&7, msgOf(o.A), ctx)
					default:
						logAt(log.Root(), o.N&7, msgOf(o.A), ctx)
					}
					x.end(err)
				}
			})
		}
		for _, o := range r.Ops(inc*10 + 9) {
			o := o
			r.Go("crash", func() {
				stallQuiet(o.B)
				if kit.DiskProc() == inc {
					fileCrash()
				}
				kit.Publish()
			})
		}
		for _, o := range r.Ops(inc*10 + 8) {
			o := o
			r.Go("heal", func() {
				stallQuiet(o.B)
				kit.Hit(prHeal)
				fileHeal()
				kit.Publish()
			})
		}
		if !r.Drain() || !r.MustEnd("logging to a file") {
			return
		}
		if kit.DiskProc() == inc && kit.DiskOpenFDs() != fst.opened {
			r.Violate("descriptor", "%d handlers are open but %d descriptors are", fst.opened, kit.DiskOpenFDs())
			return
		}
		if !fileCheck(r, initial, created) {
			return
		}
	}
	log.Root().SetHandler(log.DiscardHandler())
}

func fileCheck(r *kit.Run, initial string, created bool) bool {
	for _, c := range fst.exits {
		if c != 1 {
			r.Violate("exit", "a critical record ended the process with code %d, not 1", c)
			return false
		}
	}
	data, ok := kit.DiskGet(logPath)
	text := string(data)
	if !ok {
		for _, x := range fst.recs {
			if x.returned {
				r.Violate("lost", "the log file does not exist although record %d was written", x.op.A)
				return false
			}
		}
		return true
	}
	if created {
		if p := kit.DiskPerm(logPath); p&0o777 != 0o644 {
			r.Violate("mode", "the log file was created with mode %o", p)
			return false
		}
	}
	if !strings.HasPrefix(text, initial) {
		r.Violate("truncated", "the log's earlier content %.80q was not kept: %.80q", initial, text)
		return false
	}
	text = text[len(initial):]
	if text != "" && text[0] != 'R' {
		r.Violate("content", "the log continues with %.60q, which is no record", text)
		return false
	}
	type chunk struct {
		x    *frec
		full bool
	}
	var cs []chunk
	anon, failed := 0, 0
	for _, part := range strings.SplitAfter(strings.ReplaceAll(text, "R", "\x00R"), "\x00") {
		part = strings.TrimSuffix(part, "\x00")
		if part == "" {
			continue
		}
		if len(part) < 11 {
			kit.Hit(prTorn)
			anon++
			var fits bool
			for _, x := range fst.recs {
				fits = fits || x.started && strings.HasPrefix(fileText(x.op.A, x.op.N>>5), part)
			}
			if !fits {
				r.Violate("content", "the log contains %q, which is no part of a record", part)
				return false
			}
			continue
		}
		var id int64
		fmt.Sscanf(part[4:11], "%d", &id)
		var x *frec
		for _, y := range fst.recs {
			if y.op.A == id {
				x = y
			}
		}
		if x == nil || !x.started {
			r.Violate("content", "the log contains %.60q, which was not logged", part)
			return false
		}
		whole := fileText(id, x.op.N>>5)
		if !strings.HasPrefix(whole, part) {
			r.Violate("content", "record %d is in the log as %q, want %q", id, part, whole)
			return false
		}
		if part != whole {
			kit.Hit(prTorn)
		}
		for _, c := range cs {
			if c.x == x {
				r.Violate("duplicate", "record %d is in the log twice", id)
				return false
			}
		}
		cs = append(cs, chunk{x, part == whole})
	}
	for _, x := range fst.recs {
		if !x.started {
			continue
		}
		var c *chunk
		for i := range cs {
			if cs[i].x == x {
				c = &cs[i]
			}
		}
		full := c != nil && c.full
		if !full && c == nil {
			failed++
		}
		direct := x.op.N>>3&3 == 0
		switch {
		case !x.returned:
			kit.Hit(prGhost)
		case direct && x.err == nil && !full:
			r.Violate("lost", "record %d was acknowledged but the log does not contain it completely", x.op.A)
			return false
		case !full && x.healthy:
			r.Violate("lost", "record %d is not completely in the log although the disk works (logging returned %v)", x.op.A, x.err)
			return false
		case x.err != nil && x.healthy:
			r.Violate("error", "logging record %d failed with %v although the disk works", x.op.A, x.err)
			return false
		case x.err != nil && full:
			r.Violate("error", "logging record %d failed with %v although it is in the log", x.op.A, x.err)
			return false
		}
	}
	if anon > failed {
		r.Violate("content", "the log contains %d fragments of records, but only %d records are missing", anon, failed)
		return false
	}
	for i := range cs {
		for j := i + 1; j < len(cs); j++ {
			a, b := cs[i].x, cs[j].x
			end := b.ret
			if !b.returned {
				end = fst.crashed[b.inc]
			}
			if end != 0 && end < a.inv {
				r.Violate("order", "record %d stands before record %d, which was logged before it", a.op.A, b.op.A)
				return false
			}
		}
	}
	return true
}

var _ = os.O_APPEND
