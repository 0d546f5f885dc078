//go:build go1.22

package main

import (
	"fmt"
	"io"
	"log/syslog"
	"net"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"flychain/log"
	"flychain/zzverifsim/kit"
)

// C20: the handlers that write to a network connection or a syslog daemon,
// over simulated connections.
//
//	op "log": A id, B stall, N: 0-2 level, 3 through a logger, 4 deferred
//	value, 5-6 payload kind, 7-8 size
//	op "heal": B stall
func init() {
	kit.Register(&kit.Prop{ID: "C20", Slow: true, Steps: 600, Gen: netGen, Exec: netExec})
}

var (
	faDialErr  = kit.Ctr("fault.connection_refused")
	faConnErr  = kit.Ctr("fault.connection_write_error")
	faConnRst  = kit.Ctr("fault.connection_reset")
	faConnPart = kit.Ctr("fault.connection_partial_write")
	faConnSlow = kit.Ctr("fault.connection_slow")
	faNetHeal  = kit.Ctr("fault.network_healed")
	prRedial   = kit.Ctr("probe.reconnected")
	prNetRej   = kit.Ctr("probe.handler_not_created")
)

func netGen(g *kit.Gen) {
	if twinGen(g) {
		return
	}
	g.Set("kind", int64(g.N(6)))
	g.Set("fmt", g.Pick(fmtCustom, fmtCustom, fmtLogfmt, fmtJSON, fmtTerm))
	g.Set("must", g.Pick(0, 0, 1))
	g.Set("prio", int64(g.N(6)))
	if g.P(1, 2) {
		g.Set("dialerr", g.Pick(0, 100, 500))
		g.Set("err", g.Pick(0, 100, 400))
		g.Set("reset", g.Pick(0, 50, 300))
		g.Set("part", g.Pick(0, 100, 400))
	}
	g.Set("slow", g.Pick(0, 0, 1, 2, 4))
	n := g.Range(1, 4)
	g.Set("clients", int64(n))
	huge := int64(1)
	if g.P(1, 16) {
		huge = 3
	}
	id := int64(1)
	for c := 0; c < n; c++ {
		for k := g.Range(1, 5); k > 0; k-- {
			st := int64(0)
			if g.P(1, 4) {
				st = int64(g.N(6))
			}
			g.Op(c, "log", id, st, int64(g.N(6))|g.Pick(0, 0, 1)<<3|g.Pick(0, 0, 1)<<4|int64(g.N(4))<<5|g.Pick(0, 0, 0, 0, 0, 0, 0, 0, 1, 2, huge)<<7)
			id++
		}
	}
	if g.P(1, 2) {
		g.Op(50, "heal", 0, int64(g.N(40)))
	}
}

type netState struct {
	r                           *kit.Run
	dialErr, err, reset, part   int
	healed                      bool
	slow                        int64
	conns                       []*simConn
	dials                       int
	wantNet, wantAddr, badDials string
	dgram                       bool
}

var nst *netState

type simConn struct {
	n        int
	network  string
	addr     string
	dead     bool
	closed   bool
	busy     bool
	plain    int
	deadline time.Time
}

type simAddr struct{ network, addr string }

func (a simAddr) Network() string { return a.network }
func (a simAddr) String() string  { return a.addr }

// wire is what one write put on a connection.
type wire struct {
	conn int
	text string
	full bool
	seq  uint64
}

var wires []wire

//go:norace
func netChance(p int) bool { return p > 0 && !nst.healed && kit.Rnd(1000) < p }

//go:norace
func netDial(network, addr string) (net.Conn, error) {
	s := nst
	s.dials++
	if s.wantNet != "" && (network != s.wantNet || addr != s.wantAddr) {
		s.badDials = network + " " + addr
	}
	kit.SimPoint()
	if netChance(s.dialErr) {
		kit.Hit(faDialErr)
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	if len(s.conns) > 0 {
		kit.Hit(prRedial)
	}
	c := &simConn{n: len(s.conns), network: network, addr: addr}
	s.conns = append(s.conns, c)
	return c, nil
}

func netErr(c *simConn, e error) error {
	if n, ok := e.(syscall.Errno); ok {
		switch kit.Rnd(4) {
		case 0:
			n = syscall.EAGAIN
		case 1:
			n = syscall.EPIPE
		}
		e = os.NewSyscallError("write", n)
	}
	return &net.OpError{Op: "write", Net: c.network, Addr: simAddr{c.network, c.addr}, Err: e}
}

//go:norace
func (c *simConn) write(p []byte) (int, error) {
	s := nst
	if c.busy {
		s.r.Violate("interleaved", "a write started while another write to the same connection was in progress")
	}
	c.busy = true
	kit.SimPoint()
	if s.slow > 0 {
		kit.Hit(faConnSlow)
		kit.Stall(s.slow)
	}
	c.busy = false
	if c.closed || c.dead {
		return 0, net.ErrClosed
	}
	if !c.deadline.IsZero() && !time.Now().Before(c.deadline) {
		return 0, netErr(c, os.ErrDeadlineExceeded)
	}
	dgram := strings.HasPrefix(c.network, "udp") || c.network == "unixgram"
	switch {
	case netChance(s.reset):
		kit.Hit(faConnRst)
		c.dead = true
		n := 0
		if !dgram {
			n = kit.Rnd(len(p) + 1)
			if n == len(p) && n > 0 {
				n--
			}
			wires = append(wires, wire{c.n, string(p[:n]), false, runtime.SimSeq()})
		}
		return n, netErr(c, syscall.ECONNRESET)
	case netChance(s.err):
		kit.Hit(faConnErr)
		return 0, netErr(c, syscall.ENOBUFS)
	case !dgram && len(p) > 1 && netChance(s.part):
		kit.Hit(faConnPart)
		n := 1 + kit.Rnd(len(p)-1)
		wires = append(wires, wire{c.n, string(p[:n]), false, runtime.SimSeq()})
		return n, netErr(c, os.ErrDeadlineExceeded)
	}
	wires = append(wires, wire{c.n, string(p), true, runtime.SimSeq()})
	return len(p), nil
}

func (c *simConn) Write(p []byte) (int, error) {
	c.plain++ // unprotected: users of the connection must serialise
	return c.write(p)
}

//go:norace
func (c *simConn) Close() error { c.closed = true; return nil }

func (c *simConn) Read(p []byte) (int, error)        { return 0, io.EOF }
func (c *simConn) LocalAddr() net.Addr               { return simAddr{c.network, "simhost:1"} }
func (c *simConn) RemoteAddr() net.Addr              { return simAddr{c.network, c.addr} }
func (c *simConn) SetDeadline(t time.Time) error     { return c.SetWriteDeadline(t) }
func (c *simConn) SetReadDeadline(t time.Time) error { return nil }

//go:norace
func (c *simConn) SetWriteDeadline(t time.Time) error { c.deadline = t; return nil }

//go:norace
func netHeal() { nst.healed = true; kit.Hit(faNetHeal) }

//go:norace
func netHealed() bool { return nst.healed || nst.dialErr+nst.err+nst.reset+nst.part == 0 }

//go:norace
func netBadDial() string { return nst.badDials }

//go:norace
func netConns() int { return len(nst.conns) }

//go:norace
func netLast() bool { return len(nst.conns) > 0 && !nst.conns[len(nst.conns)-1].dead }

const (
	nkTCP = iota
	nkUDP
	nkUnix
	nkSyslog
	nkSyslogTCP
	nkSyslogUDP
)

var netOf = []string{"tcp", "udp", "unix", "", "tcp", "udp"}

var netPrio = []syslog.Priority{syslog.LOG_INFO | syslog.LOG_USER, syslog.LOG_DEBUG | syslog.LOG_DAEMON, syslog.LOG_EMERG | syslog.LOG_LOCAL0,
	syslog.LOG_ERR | syslog.LOG_LOCAL7, syslog.LOG_WARNING | syslog.LOG_KERN, syslog.LOG_NOTICE | syslog.LOG_AUTH}

// payload makes the variable part of a record: surrounding white space is not
// part of a syslog message.
var netPad = [][2]string{{"", ""}, {"  ", " \n"}, {"\t", "\t\n\n"}, {"", "\n"}}

type nrec struct {
	op      kit.Op
	healthy bool
	eval    int
}

//go:norace
func (x *nrec) start() {
	// A connection that broke earlier stays broken for the plain handler.
	x.healthy = netHealed() && netLast()
}

//go:norace
func (x *nrec) evaluated() { x.eval++ }

var syslogRe = regexp.MustCompile(`(?s)^<(\d+)>(.*?) ?(\S+)\[(\d+)\]: (.*)\n$`)

func netExec(r *kit.Run) {
	if r.P("twin") == 1 {
		twinExec(r, "net")
		return
	}
	kind, f := r.P("kind"), r.P("fmt")
	isSys := kind >= nkSyslog
	nst = &netState{r: r, dialErr: int(r.P("dialerr")), err: int(r.P("err")), reset: int(r.P("reset")), part: int(r.P("part")), slow: r.P("slow")}
	wires = nil
	netw, addr := netOf[kind], "collector.example:514"
	if kind == nkSyslog {
		addr = ""
	} else {
		nst.wantNet, nst.wantAddr = netw, addr
	}
	net.SimDial = netDial
	base := format(f)
	var key = runKey(r)
	fm := log.FormatFunc(func(rec *log.Record) []byte {
		b := base.Format(rec)
		pad := netPad[0]
		for _, c := range calls {
			if c.id == idOf(rec.Msg) {
				pad = netPad[padOf(r, c.id)]
			}
		}
		return []byte(pad[0] + string(b) + pad[1])
	})
	prio := netPrio[r.P("prio")]
	const tag = "flychain-node"
	ready := make(chan struct{})
	var h log.Handler
	lg := log.New()
	var recs []*nrec
	for c := 0; c < int(r.P("clients")); c++ {
		var l []*nrec
		for _, o := range r.Ops(c) {
			l = append(l, &nrec{op: o})
		}
		recs = append(recs, l...)
		r.Go("client", func() {
			defer kit.Publish()
			<-ready
			if h == nil {
				return
			}
			for _, x := range l {
				o := x.op
				stallQuiet(o.B)
				var val interface{} = "v"
				if o.N&16 != 0 {
					val = log.Lazy{Fn: func() string { x.evaluated(); kit.Yield(); return "v" }}
				}
				ctx := []interface{}{"id", int(o.A), key, val}
				if b := bulk(o.A, o.N>>7&3); b != "" {
					ctx = append(ctx, "bulk", b)
				}
				x.start()
				guarded(o.A, func() error {
					lvl := o.N & 7
					if o.N&8 != 0 && lvl != 0 {
						logAt(lg, lvl, msgOf(o.A), ctx)
						return nil
					}
					return h.Log(&log.Record{Time: time.Unix(1700000000+o.A, 0).UTC(), Lvl: log.Lvl(lvl), Msg: msgOf(o.A), Ctx: ctx, KeyNames: keyNames})
				})
			}
		})
	}
	for _, o := range r.Ops(50) {
		o := o
		r.Go("heal", func() {
			stallQuiet(o.B)
			netHeal()
			kit.Publish()
		})
	}
	r.Go("main", func() {
		defer kit.Publish()
		defer close(ready)
		h2, err := netOpen(r, kind, netw, addr, prio, tag, fm)
		switch {
		case r.Bad():
		case err == nil && h2 == nil:
			r.Violate("open", "neither a handler nor an error was returned")
		case err != nil && h2 != nil:
			r.Violate("open", "a handler was returned together with the error %v", err)
		case err == nil && netConns() == 0:
			r.Violate("open", "a handler was returned but no connection was made")
		case err != nil && netConns() > 0:
			r.Violate("open", "%v was returned although a connection was made", err)
		case err != nil:
			kit.Hit(prNetRej)
		default:
			h = h2
			lg.SetHandler(h2)
		}
	})
	if !r.Drain() || !r.MustEnd("logging over the network") {
		return
	}
	if b := netBadDial(); b != "" {
		r.Violate("address", "connected to %s instead of %s %s", b, netw, addr)
		return
	}
	if h == nil {
		return
	}
	if !isSys && netConns() > 1 {
		r.Violate("address", "%d connections were made", netConns())
		return
	}
	netCheck(r, recs, kind, f, prio, tag, key)
}

//go:norace
func padOf(r *kit.Run, id int64) int64 {
	for _, o := range r.Plan.Ops {
		if o.K == "log" && o.A == id {
			return o.N >> 5 & 3
		}
	}
	return 0
}

func netOpen(r *kit.Run, kind int64, netw, addr string, prio syslog.Priority, tag string, fm log.Format) (h log.Handler, err error) {
	if r.P("must") == 0 {
		switch kind {
		case nkSyslog:
			return log.SyslogHandler(prio, tag, fm)
		case nkSyslogTCP, nkSyslogUDP:
			return log.SyslogNetHandler(netw, addr, prio, tag, fm)
		}
		return log.NetHandler(netw, addr, fm)
	}
	defer func() {
		if e := recover(); e != nil {
			h = nil
			if x, ok := e.(error); ok {
				err = x
			} else {
				r.Violate("open", "Must panicked with %v, which is no error", e)
			}
		}
	}()
	switch kind {
	case nkSyslog:
		h = log.Must.SyslogHandler(prio, tag, fm)
	case nkSyslogTCP, nkSyslogUDP:
		h = log.Must.SyslogNetHandler(netw, addr, prio, tag, fm)
	default:
		h = log.Must.NetHandler(netw, addr, fm)
	}
	return
}

func netCheck(r *kit.Run, recs []*nrec, kind, f int64, prio syslog.Priority, tag, key string) {
	isSys := kind >= nkSyslog
	pos := map[int64]int{}
	for i, w := range wires {
		id := idOf(w.text)
		if !w.full {
			continue
		}
		if id < 0 || callOf(id) == nil {
			r.Violate("content", "%q was sent, which is no record", w.text)
			return
		}
		if _, dup := pos[id]; dup {
			r.Violate("duplicate", "record %d was sent twice", id)
			return
		}
		pos[id] = i
	}
	for _, x := range recs {
		o := x.op
		c := callOf(o.A)
		if c == nil {
			continue
		}
		if c.panicked {
			r.Violate("panic", "logging record %d panicked: %s", o.A, c.pv)
			return
		}
		i, sent := pos[o.A]
		direct := o.N&8 == 0 || o.N&7 == 0
		drop := isSys && o.N&7 == int64(log.LvlTrace)
		switch {
		case drop && (sent || c.err != nil):
			r.Violate("trace", "trace record %d: sent %v, error %v; syslog has no such severity", o.A, sent, c.err)
			return
		case drop:
			continue
		case direct && c.err == nil && !sent:
			r.Violate("lost", "record %d was acknowledged but not sent completely", o.A)
			return
		case direct && c.err != nil && sent:
			r.Violate("error", "logging record %d failed with %v although it was sent", o.A, c.err)
			return
		case !sent && x.healthy && (isSys || connOK()):
			r.Violate("lost", "record %d was not sent although the network works (error %v)", o.A, c.err)
			return
		}
		if o.N&16 != 0 && x.eval != 1 {
			r.Violate("lazy", "the deferred value of record %d was evaluated %d times", o.A, x.eval)
			return
		}
		if !sent {
			continue
		}
		text := wires[i].text
		pad := netPad[o.N>>5&3]
		if isSys {
			m := syslogRe.FindStringSubmatch(text)
			if m == nil {
				r.Violate("content", "record %d was sent as %q, which is no syslog message", o.A, text)
				return
			}
			sev := []syslog.Priority{syslog.LOG_CRIT, syslog.LOG_ERR, syslog.LOG_WARNING, syslog.LOG_INFO, syslog.LOG_DEBUG}[o.N&7]
			if want := prio&^7 | sev; m[1] != strconv.Itoa(int(want)) {
				r.Violate("severity", "record %d at level %s was sent with priority %s, want %d", o.A, lvlNames[o.N&7], m[1], int(want))
				return
			}
			if m[3] != tag {
				r.Violate("content", "record %d was sent with tag %q, want %q", o.A, m[3], tag)
				return
			}
			text = m[5] + "\n"
		} else {
			if !strings.HasPrefix(text, pad[0]) || !strings.HasSuffix(text, "\n"+pad[1]) {
				r.Violate("content", "record %d was sent as %q", o.A, text)
				return
			}
			text = strings.TrimSuffix(strings.TrimPrefix(text, pad[0]), pad[1])
		}
		w := want{lvl: log.Lvl(o.N & 7), msg: msgOf(o.A), pairs: [][2]string{{"id", fmt.Sprint(o.A)}, {key, "v"}}}
		if b := bulk(o.A, o.N>>7&3); b != "" {
			w.pairs = append(w.pairs, [2]string{"bulk", b})
		}
		if direct {
			w.t = time.Unix(1700000000+o.A, 0).UTC()
		}
		if err := checkText(f, text, w); err != nil {
			r.Violate("content", "record %d was sent as %q: %v", o.A, wires[i].text, err)
			return
		}
	}
	for ida, i := range pos {
		for idb, j := range pos {
			a, b := callOf(ida), callOf(idb)
			if i < j && b.ret < a.inv {
				r.Violate("order", "record %d was sent before record %d, which was logged before it", ida, idb)
				return
			}
		}
	}
}

//go:norace
func connOK() bool { return !nst.conns[0].dead }
