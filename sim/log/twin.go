//go:build go1.22

package main

import (
	"net"
	"runtime"
	"strings"

	"flychain/log"
	"flychain/zzverifsim/kit"
)

// Records that do not differ in anything are still different records: a part
// of the runs of several properties logs the same record again and again,
// from one call site, at one moment, and counts.
//
//	op "log": A times, B stall

var prTwin = kit.Ctr("probe.identical_records")

const twinText = "the same again"

func twinGen(g *kit.Gen) bool {
	if !g.P(1, 16) {
		return false
	}
	g.Set("twin", 1)
	g.Set("variant", int64(g.N(12)))
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	for c := 0; c < n; c++ {
		for k := g.Range(1, 3); k > 0; k-- {
			t := g.Range(1, 4)
			if g.P(1, 30) {
				t = g.Range(20, 300)
			}
			g.Op(c, "log", int64(t), int64(g.N(8)))
		}
	}
	return true
}

var twinN int64

//go:norace
func twinAdd(n int) { twinN += int64(n) }

type twinWriter struct{}

func (twinWriter) Write(p []byte) (int, error) {
	kit.Yield()
	twinAdd(strings.Count(string(p), twinText))
	return len(p), nil
}

// twinExec runs it against handlers of the named kind.
func twinExec(r *kit.Run, kind string) {
	twinN = 0
	total, times := int64(0), int64(1)
	sink := log.FuncHandler(func(rec *log.Record) error {
		kit.Yield()
		if rec.Msg == twinText {
			twinAdd(1)
		}
		return nil
	})
	v := int(r.P("variant"))
	var h log.Handler
	var err error
	end := func() {}
	switch kind {
	case "stream":
		h = log.StreamHandler(twinWriter{}, format(int64(1+v%(nFmt-1))))
	case "buffered":
		h = log.BufferedHandler(v%4, log.FuncHandler(func(rec *log.Record) error {
			if rec.Msg == "poison" {
				runtime.Goexit()
			}
			return sink.Log(rec)
		}))
		end = func() { h.Log(&log.Record{Msg: "poison"}) }
	case "fan":
		if v < 6 {
			h, times = log.MultiHandler(sink, log.FailoverHandler(sink, sink), sink), 3
		} else {
			bad := log.FuncHandler(func(rec *log.Record) error { return mkErr(int64(v), 1) })
			h = log.FailoverHandler(bad, sink, sink)
		}
	case "filter":
		gl := log.NewGlogHandler(sink)
		gl.Verbosity(log.LvlInfo)
		if v < 6 {
			gl.Verbosity(log.LvlCrit)
			if err := gl.Vmodule("twin.go=5"); err != nil {
				r.Violate("config", "valid rules were rejected: %v", err)
			}
		}
		h = log.LvlFilterHandler(log.LvlInfo, gl)
	case "file":
		kit.DiskSetFaults(kit.DiskFaults{})
		h, err = log.FileHandler(logPath, log.LogfmtFormat())
	case "net":
		nst = &netState{r: r}
		wires = nil
		net.SimDial = netDial
		h, err = netOpen(r, []int64{nkTCP, nkUDP, nkUnix, nkSyslog, nkSyslogTCP, nkSyslogUDP}[v%6], netOf[v%6], "collector.example:514", netPrio[0], "flychain-node", log.LogfmtFormat())
	}
	if err != nil {
		r.Violate("open", "making a handler failed without a fault: %v", err)
		return
	}
	lg := log.New("k", 1)
	lg.SetHandler(h)
	kit.Hit(prTwin)
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		for _, o := range ops {
			total += o.A
		}
		r.Go("client", func() {
			for _, o := range ops {
				stall(o.B)
				for i := int64(0); i < o.A; i++ {
					lg.Info(twinText, "id", 7)
				}
			}
			kit.Publish()
		})
	}
	if !r.Drain() {
		return
	}
	if kind == "buffered" {
		r.Go("poison", end)
		if !r.Drain() {
			return
		}
	}
	if !r.MustEnd("after everything was logged") {
		return
	}
	switch kind {
	case "file":
		data, _ := kit.DiskGet(logPath)
		twinAdd(strings.Count(string(data), twinText))
	case "net":
		for _, w := range wires {
			twinAdd(strings.Count(w.text, twinText))
		}
	}
	if twinN != total*times {
		r.Violate("count", "%d of %d deliveries of identical records were made", twinN, total*times)
	}
}
