//go:build go1.22

package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"flychain/log"
	"flychain/zzverifsim/kit"
)

const (
	evLogInv = 1 // A id
	evLogRet = 2 // A id, B outcome (0 nil error, 1 error, 2 panicked)
	evSink   = 3 // A sink, B id, C outcome
)

var (
	prStall    = kit.Ctr("fault.client_stall")
	prSinkErr  = kit.Ctr("fault.sink_error")
	prSinkShrt = kit.Ctr("fault.sink_short_write")
	prSinkPan  = kit.Ctr("fault.sink_panic")
	prSinkSlow = kit.Ctr("fault.sink_slow")
	prValPan   = kit.Ctr("fault.value_panics_while_formatted")
)

func stall(n int64) {
	if n > 0 {
		kit.Hit(prStall)
	}
	kit.Stall(n)
}

// Messages have a fixed length so that the formatters' alignment state does
// not differ between runs.
func msgOf(id int64) string { return fmt.Sprintf("m%07d.", id) }

func idOf(s string) int64 {
	i := strings.IndexByte(s, 'm')
	for ; i >= 0 && i+9 <= len(s); i++ {
		if s[i] == 'm' && s[i+8] == '.' {
			if n, err := strconv.ParseInt(s[i+1:i+8], 10, 64); err == nil {
				return n
			}
		}
	}
	return -1
}

var lvlNames = []string{"crit", "eror", "warn", "info", "dbug", "trce"}
var lvlAligned = []string{"CRIT ", "ERROR", "WARN ", "INFO ", "DEBUG", "TRACE"}

type sinkErr struct{ id, sink int64 }

func (e *sinkErr) Error() string { return fmt.Sprintf("sink-%d-failed-%d", e.sink, e.id) }

// A broken connection, as the net package reports it: worth another try, it says.
type busyErr struct{ id, sink int64 }

func (e *busyErr) Error() string   { return fmt.Sprintf("sink-%d-busy-%d", e.sink, e.id) }
func (e *busyErr) Timeout() bool   { return true }
func (e *busyErr) Temporary() bool { return true }

// mkErr makes the error a sink fails with: its own or one everybody knows.
func mkErr(id, sink int64) error {
	l := []error{io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, os.ErrClosed, net.ErrClosed, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC,
		context.Canceled, os.ErrDeadlineExceeded, io.ErrClosedPipe, os.ErrNotExist}
	switch k := int(kit.Mix(uint64(id)<<8^uint64(sink)) >> 20 & 31); {
	case k < len(l):
		return l[k]
	case k < len(l)+3:
		return &busyErr{id, sink}
	}
	return &sinkErr{id: id, sink: sink}
}

var errBoom = errors.New("boom")

// bomb is a context value that cannot be formatted.
type bomb struct{}

func (bomb) String() string { panic(errBoom) }

// calls is what clients observed of their logging calls.
type call struct {
	id       int64
	g        int32
	inv, ret uint64
	err      error
	panicked bool
	pv       string
	done     bool
	t0, t1   int64
}

var calls []*call

//go:norace
func newCall(id int64) *call {
	c := &call{id: id, g: runtime.SimSelf(), t0: runtime.SimNow()}
	calls = append(calls, c)
	c.inv = kit.Log(evLogInv, id, 0, 0)
	return c
}

//go:norace
func (c *call) end(err error) {
	c.err, c.done, c.t1 = err, true, runtime.SimNow()
	o := int64(0)
	if err != nil {
		o = 1
	}
	if c.panicked {
		o = 2
	}
	c.ret = kit.Log(evLogRet, c.id, o, 0)
}

//go:norace
func callOf(id int64) *call {
	for _, c := range calls {
		if c.id == id {
			return c
		}
	}
	return nil
}

// guarded runs a logging call that may panic because of an injected fault.
func guarded(id int64, f func() error) *call {
	c := newCall(id)
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.panic_(fmt.Sprint(e))
			}
		}()
		err = f()
	}()
	c.end(err)
	return c
}

//go:norace
func (c *call) panic_(s string) { c.panicked, c.pv = true, s }

// got is one record as a sink saw it.
type got struct {
	sink   int64
	id     int64
	seq    uint64
	seqEnd uint64
	text   string
	msg    string
	lvl    log.Lvl
	ctx    []interface{}
	t      time.Time
	call   string
	err    error
}

var gots []*got

//go:norace
func addGot(g *got) {
	if g.id < 0 {
		// Text without a message: the call its goroutine is in.
		for i := len(calls) - 1; i >= 0; i-- {
			if calls[i].g == runtime.SimSelf() && !calls[i].done {
				g.id = calls[i].id
				break
			}
		}
	}
	gots = append(gots, g)
	g.seq = kit.Log(evSink, g.sink, g.id, 0)
}

//go:norace
func (g *got) finish(err error) {
	g.err = err
	g.seqEnd = runtime.SimSeq()
}

//go:norace
func gotsOf(id int64) []*got {
	var l []*got
	for _, g := range gots {
		if g.id == id {
			l = append(l, g)
		}
	}
	return l
}

// capture copies a record the way a handler would read it.
func capture(sink int64, r *log.Record) *got {
	g := &got{sink: sink, msg: r.Msg, lvl: r.Lvl, t: r.Time, id: idOf(r.Msg)}
	g.ctx = append([]interface{}(nil), r.Ctx...)
	addGot(g)
	return g
}

func init() {
	kit.SetupRun = append(kit.SetupRun, func() {
		calls, gots = nil, nil
		streams = nil
		faultTab = nil
		warmUp()
	})
}

var warmed bool

// warmUp settles the formatters' alignment state, outside any run.
func warmUp() {
	if warmed || kit.Cur == "C18" {
		return
	}
	warmed = true
	// Settle the alignment of the columns every run shares.
	r := &log.Record{Time: time.Unix(1700000000, 0).UTC(), Lvl: log.LvlInfo, Msg: strings.Repeat("w", 40), KeyNames: keyNames,
		Ctx: []interface{}{"id", "12345", "who", "c0"}}
	for _, k := range []string{"caller", "fn", "stack", "LOG15_ERROR"} {
		r.Ctx = append(r.Ctx, k, strings.Repeat("w", 40))
	}
	log.LogfmtFormat().Format(r)
	log.TerminalFormat(true).Format(r)
	// And the encoder's type caches.
	for _, x := range []interface{}{1, 1.5, "s", true, nil, errBoom, time.Second, r.Time} {
		r.Ctx = []interface{}{"id", x}
		log.JSONFormat().Format(r)
		log.JSONFormatEx(true, true).Format(r)
		log.JSONFormatOrderedEx(false, true).Format(r)
	}
	warmOrigins()
}

var keyNames = log.RecordKeyNames{Time: "t", Lvl: "lvl", Msg: "msg", Ctx: "ctx"}

// order checks that writes respect the real-time order of the calls.
//
//go:norace
func checkOrder(r *kit.Run, sink int64, what string) {
	var l []*got
	for _, g := range gots {
		if g.sink == sink && g.id >= 0 {
			l = append(l, g)
		}
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			a, b := callOf(l[i].id), callOf(l[j].id)
			if a != nil && b != nil && b.done && b.ret < a.inv {
				r.Violate("order", "%s: record %d was written before record %d although logging %d had returned before %d was logged",
					what, a.id, b.id, b.id, a.id)
				return
			}
		}
	}
}

// ---- parsing ----

func stripColour(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for i < len(s) && s[i] != 'm' {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// parsePairs reads key=value pairs separated by spaces, as logfmt defines them.
func parsePairs(s string) ([][2]string, error) {
	var l [][2]string
	tok := func() (string, error) {
		if strings.HasPrefix(s, `"`) {
			q, err := strconv.QuotedPrefix(s)
			if err != nil {
				return "", fmt.Errorf("bad quoting at %.40q", s)
			}
			s = s[len(q):]
			return strconv.Unquote(q)
		}
		i := strings.IndexAny(s, "= \n\"")
		if i < 0 {
			i = len(s)
		}
		t := s[:i]
		s = s[i:]
		return t, nil
	}
	for {
		s = strings.TrimLeft(s, " ")
		if s == "" {
			return l, nil
		}
		k, err := tok()
		if err != nil {
			return nil, err
		}
		if !strings.HasPrefix(s, "=") {
			return nil, fmt.Errorf("no '=' after key %q", k)
		}
		s = s[1:]
		v, err := tok()
		if err != nil {
			return nil, err
		}
		if s != "" && s[0] != ' ' {
			return nil, fmt.Errorf("garbage after value of %q: %.40q", k, s)
		}
		l = append(l, [2]string{k, v})
	}
}

const (
	fmtCustom = iota
	fmtLogfmt
	fmtTerm
	fmtTermColour
	fmtJSON
	fmtJSONPretty
	fmtJSONOrdered
	fmtJSONBare
	fmtJSONPrettyBare
	fmtJSONOrderedPretty
	fmtJSONOrderedBare
	nFmt
)

// isJSON describes a JSON format: an array of the context in its order, with
// indentation, with a newline after each record.
func isJSON(f int64) (ordered, pretty, sep, ok bool) {
	switch f {
	case fmtJSON:
		return false, false, true, true
	case fmtJSONPretty:
		return false, true, true, true
	case fmtJSONOrdered:
		return true, false, true, true
	case fmtJSONBare:
		return false, false, false, true
	case fmtJSONPrettyBare:
		return false, true, false, true
	case fmtJSONOrderedPretty:
		return true, true, true, true
	case fmtJSONOrderedBare:
		return true, false, false, true
	}
	return
}

func customFormat(r *log.Record) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "<%s|%d", r.Msg, int(r.Lvl))
	for i := 0; i+1 < len(r.Ctx); i += 2 {
		kit.Yield()
		fmt.Fprintf(&b, "|%v:", r.Ctx[i])
		if s, ok := r.Ctx[i+1].(fmt.Stringer); ok {
			b.WriteString(s.String())
		} else {
			fmt.Fprintf(&b, "%v", r.Ctx[i+1])
		}
	}
	b.WriteString(">\n")
	return []byte(b.String())
}

func format(k int64) log.Format {
	switch k {
	case fmtLogfmt:
		return log.LogfmtFormat()
	case fmtTerm:
		return log.TerminalFormat(false)
	case fmtTermColour:
		return log.TerminalFormat(true)
	case fmtJSON:
		return log.JSONFormat()
	}
	if ordered, pretty, sep, ok := isJSON(k); ok {
		if ordered {
			return log.JSONFormatOrderedEx(pretty, sep)
		}
		return log.JSONFormatEx(pretty, sep)
	}
	return log.FormatFunc(customFormat)
}

// want is a record as the writer of a line should have rendered it; values
// are already formatted.
type want struct {
	lvl   log.Lvl
	msg   string
	t     time.Time   // zero: not checked
	pairs [][2]string // a value starting with byte 0 is a prefix, with 1 a list of alternatives, with 3 a part
	loc   string      // "": origins not printed
	any   bool        // the order of the pairs is open
	maybe bool        // origins may or may not be printed

	badKeys []string // how the keys that are no strings print, in ordered JSON
}

const (
	tfLogfmt = "2006-01-02T15:04:05-0700"
	tfTerm   = "01-02|15:04:05.000"
)

// checkText decides whether text is exactly one rendering of w.
func checkText(f int64, text string, w want) error {
	ordered, pretty, sep, js := isJSON(f)
	if end := strings.HasSuffix(text, "\n"); end != (sep || !js) {
		return fmt.Errorf("terminated by a newline: %v", end)
	}
	same := func(got, want string) bool {
		if strings.HasPrefix(want, "\x00") {
			return strings.HasPrefix(got, want[1:])
		}
		if strings.HasPrefix(want, "\x03") {
			return strings.Contains(got, want[1:])
		}
		if strings.HasPrefix(want, "\x01") {
			for _, x := range strings.Split(want[1:], "|") {
				if got == x {
					return true
				}
			}
			return false
		}
		return got == want
	}
	cmp := func(got [][2]string) error {
		if w.any && len(got) == len(w.pairs) {
			// Those given exactly choose first.
			used := make([]bool, len(got))
			for _, part := range []bool{false, true} {
			next:
				for _, p := range w.pairs {
					if strings.HasPrefix(p[1], "\x03") != part {
						continue
					}
					for i, g := range got {
						if !used[i] && g[0] == p[0] && same(g[1], p[1]) {
							used[i] = true
							continue next
						}
					}
					return fmt.Errorf("no pair %q in %q", p, got)
				}
			}
			return nil
		}
		if len(got) != len(w.pairs) {
			return fmt.Errorf("%d pairs, want %d: %v want %v", len(got), len(w.pairs), got, w.pairs)
		}
		for i := range got {
			if got[i][0] != w.pairs[i][0] || !same(got[i][1], w.pairs[i][1]) {
				return fmt.Errorf("pair %d is %q, want %q", i, got[i], w.pairs[i])
			}
		}
		return nil
	}
	switch f {
	case fmtCustom:
		s := fmt.Sprintf("<%s|%d", w.msg, int(w.lvl))
		for _, p := range w.pairs {
			s += "|" + p[0] + ":" + p[1]
		}
		if text != s+">\n" {
			return fmt.Errorf("got %q want %q", text, s)
		}
	case fmtLogfmt:
		got, err := parsePairs(strings.TrimSuffix(text, "\n"))
		if err != nil {
			return err
		}
		if len(got) < 3 || got[0][0] != "t" || got[1] != [2]string{"lvl", lvlNames[w.lvl]} || got[2] != [2]string{"msg", w.msg} {
			return fmt.Errorf("does not start with time, level and message")
		}
		if !w.t.IsZero() && got[0][1] != w.t.Format(tfLogfmt) {
			return fmt.Errorf("time %s, want %s", got[0][1], w.t.Format(tfLogfmt))
		}
		return cmp(got[3:])
	case fmtTerm, fmtTermColour:
		s := strings.TrimSuffix(text, "\n")
		if f == fmtTermColour {
			if !strings.HasPrefix(s, "\x1b[") {
				return fmt.Errorf("no colour")
			}
			s = stripColour(s)
		}
		pre := lvlAligned[w.lvl] + "["
		if !strings.HasPrefix(s, pre) {
			return fmt.Errorf("does not start with the level")
		}
		s = s[len(pre):]
		end := strings.IndexByte(s, ']')
		if end < 0 {
			return fmt.Errorf("no time")
		}
		head := s[:end]
		if w.loc != "" && !(w.maybe && !strings.HasSuffix(head, "|"+w.loc)) {
			if !strings.HasSuffix(head, "|"+w.loc) {
				return fmt.Errorf("origin missing: %q, want %q", head, w.loc)
			}
			head = strings.TrimSuffix(head, "|"+w.loc)
		}
		if _, err := time.Parse(tfTerm, head); err != nil {
			return fmt.Errorf("bad time: %v", err)
		}
		if !w.t.IsZero() && head != w.t.Format(tfTerm) {
			return fmt.Errorf("time %s, want %s", head, w.t.Format(tfTerm))
		}
		s = strings.TrimLeft(s[end+1:], " ")
		msg := w.msg
		if q := strconv.Quote(msg); strings.HasPrefix(s, q) {
			msg = q
		} else if !strings.HasPrefix(s, msg) {
			return fmt.Errorf("message missing")
		} else if strings.ContainsAny(msg, "=\x00\x1b") {
			return fmt.Errorf("message is not quoted")
		}
		got, err := parsePairs(s[len(msg):])
		if err != nil {
			return err
		}
		return cmp(got)
	}
	if js {
		if n := strings.Count(strings.TrimSuffix(text, "\n"), "\n"); (n > 0) != pretty {
			return fmt.Errorf("more than one line: %v", n > 0)
		}
		var m map[string]interface{}
		dec := json.NewDecoder(strings.NewReader(text))
		dec.UseNumber()
		if err := dec.Decode(&m); err != nil {
			return err
		}
		if rest := strings.TrimSpace(text[dec.InputOffset():]); rest != "" {
			return fmt.Errorf("garbage after the object: %.40q", rest)
		}
		if m["lvl"] != lvlNames[w.lvl] || m["msg"] != w.msg {
			return fmt.Errorf("level or message wrong")
		}
		ts, _ := m["t"].(string)
		t, err := time.Parse(time.RFC3339Nano, ts)
		if err != nil {
			return err
		}
		if !w.t.IsZero() && !t.Equal(w.t) {
			return fmt.Errorf("time %v, want %v", t, w.t)
		}
		if ordered {
			if len(m) != 4 && len(w.badKeys) == 0 {
				return fmt.Errorf("%d keys", len(m))
			}
			ok := len(w.badKeys) == 0
			for _, k := range w.badKeys {
				s, _ := m["LOG15_ERROR"].(string)
				ok = ok || strings.Contains(s, k)
			}
			if !ok {
				return fmt.Errorf("a key that is no string is not reported")
			}
			a, _ := m["ctx"].([]interface{})
			var got [][2]string
			for i := 0; i+1 < len(a); i += 2 {
				k, _ := a[i].(string)
				v, _ := a[i+1].(string)
				if strings.HasPrefix(v, `"`) {
					v, _ = strconv.Unquote(v)
				}
				got = append(got, [2]string{k, v})
			}
			return cmp(got)
		}
		exp := map[string]string{}
		for _, p := range w.pairs {
			exp[p[0]] = p[1]
		}
		if len(m) != 3+len(exp) {
			return fmt.Errorf("%d keys, want %d", len(m), 3+len(exp))
		}
		for k, v := range exp {
			var s string
			switch v := m[k].(type) {
			case string:
				s = v
			case json.Number:
				s = v.String()
			default:
				return fmt.Errorf("key %s missing", k)
			}
			if !same(s, v) {
				return fmt.Errorf("%s is %q, want %q", k, s, v)
			}
		}
	}
	return nil
}

// ---- a byte sink with faults ----

const (
	sfOK = iota
	sfErr
	sfShort
	sfShortErr
	sfPanic
)

var faultTab []int64 // indexed by id

//go:norace
func setFault(id, f int64) {
	for int64(len(faultTab)) <= id {
		faultTab = append(faultTab, 0)
	}
	faultTab[id] = f
}

//go:norace
func faultOf(id int64) int64 {
	if id < 0 || id >= int64(len(faultTab)) {
		return 0
	}
	return faultTab[id]
}

type stream struct {
	r     *kit.Run
	n     int64
	slow  int64
	busy  bool
	plain int // touched without protection: the handler must provide it
}

var streams []*stream

//go:norace
func (w *stream) enter() {
	if w.busy {
		w.r.Violate("interleaved", "a write started while another write to the same sink was in progress")
	}
	w.busy = true
}

//go:norace
func (w *stream) leave() { w.busy = false }

func (w *stream) Write(p []byte) (int, error) {
	w.enter()
	w.plain++
	a := string(p[:len(p)/2])
	kit.Yield()
	if w.slow > 0 {
		kit.Hit(prSinkSlow)
		kit.Stall(w.slow)
	}
	kit.Yield()
	text := a + string(p[len(p)/2:])
	g := &got{sink: w.n, text: text, id: idOf(text)}
	addGot(g)
	w.plain++
	kit.Yield()
	w.leave()
	switch faultOf(g.id) {
	case sfErr:
		kit.Hit(prSinkErr)
		e := mkErr(g.id, w.n)
		g.finish(e)
		return 0, e
	case sfShort:
		kit.Hit(prSinkShrt)
		g.finish(nil)
		return len(p) / 2, nil
	case sfShortErr:
		kit.Hit(prSinkShrt)
		e := mkErr(g.id, w.n)
		g.finish(e)
		return len(p) / 2, e
	case sfPanic:
		kit.Hit(prSinkPan)
		panic(errBoom)
	}
	g.finish(nil)
	return len(p), nil
}
