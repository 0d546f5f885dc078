//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"flychain/common"
	"flychain/zzverifsim/kit"
)

// C25: loading a configuration file that others write, replace, remove and
// damage, from a faulty disk, over several incarnations of the process.
// Client c of incarnation i is i*10+c: 0 writes, 1-3 load, 9 crashes.
//
//	op "put":  A version, B stall, N: 0-1 how (in place, replaced, removed), 2.. damage
//	op "load": A target, B stall
//	op "exist": B stall
//	op "crash": B stall
func init() {
	kit.Register(&kit.Prop{ID: "C25", Slow: true, Steps: 700, StepCap: 6000000, Gen: cfgGen, Exec: cfgExec})
}

const dataDir = kit.DiskRoot + "data"
const cfgPath = dataDir + "/config.json"

var (
	faStall    = kit.Ctr("fault.client_stall")
	prLoaded   = kit.Ctr("probe.file_loaded")
	prSyntax   = kit.Ctr("probe.malformed_file_refused")
	prType     = kit.Ctr("probe.file_of_wrong_type_refused")
	prUnread   = kit.Ctr("probe.unreadable_file_reported")
	prMissing  = kit.Ctr("probe.missing_file_reported")
	prReplaced = kit.Ctr("probe.loaded_while_being_replaced")
	prMixed    = kit.Ctr("probe.loaded_while_changed_in_place")
	prTornCfg  = kit.Ctr("probe.torn_file_after_crash")
)

type cfgSub struct {
	Enabled bool
	Rate    float64
}

type cfg struct {
	Name    string
	Version int
	Peers   []string
	Limits  map[string]int
	Sub     *cfgSub
	Note    string `json:"note,omitempty"`
	Extra   any
}

const nDamage = 12

// cfgText is the content of version v with a kind of damage.
func cfgText(v, how int64) []byte {
	x := kit.Mix(uint64(v)*7919 + 5)
	rnd := func(n int) int { x = kit.Mix(x); return int(x % uint64(n)) }
	c := cfg{Name: fmt.Sprintf("node-%d", v), Version: int(v), Limits: map[string]int{}}
	for k := rnd(4); k > 0; k-- {
		c.Peers = append(c.Peers, fmt.Sprintf("peer %d\nö\x00", rnd(1000)))
		c.Limits[fmt.Sprintf("l%d", k)] = rnd(1 << 30)
	}
	if rnd(2) == 0 {
		c.Sub = &cfgSub{true, float64(rnd(1000)) / 8}
	}
	if rnd(3) == 0 {
		c.Note = strings.Repeat("long note ", rnd(120))
	}
	if rnd(10) == 0 { // a large file
		for k := 20 + rnd(200); k > 0; k-- {
			c.Peers = append(c.Peers, fmt.Sprintf("%d %s", k, strings.Repeat("peer", rnd(60))))
		}
	}
	c.Extra = []any{float64(v), nil, "x"}
	b, err := json.MarshalIndent(c, "", "  ")
	if err != nil {
		panic(err)
	}
	if rnd(3) > 0 {
		b = append(b, '\n')
	}
	if rnd(4) == 0 {
		b = bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
	}
	if rnd(4) == 0 {
		b = append([]byte("\n\n  \n"), b...)
	}
	if rnd(40) == 0 { // many lines
		b = append(bytes.Repeat([]byte("\n"), rnd(3000)), b...)
	}
	i := rnd(len(b))
	switch how {
	case 1: // torn
		b = b[:i]
	case 2: // a byte changed
		b[i] ^= byte(1 << rnd(8))
	case 3: // garbage in the middle
		b = append(b[:i:i], append([]byte("@%"), b[i:]...)...)
	case 4: // garbage at the end
		b = append(b, []byte("\n\nü}")...)
	case 5: // empty
		b = nil
	case 6: // blocks that were never written
		for j := i; j < len(b); j++ {
			b[j] = 0
		}
	case 7: // values of the wrong type
		b = bytes.Replace(b, []byte(`"Version": `), []byte(`"Version": "x`+"\\u00e9"+`", "V": `), 1)
	case 8: // not an object
		b = []byte("[1,\n 2]\n")
	case 9: // a second document
		b = append(b, []byte("\n{}\n")...)
	case 10: // a raw newline inside a string
		b = bytes.Replace(b, []byte("node-"), []byte("no\n\nde-"), 1)
	case 11: // null
		b = []byte("null\n")
	}
	return b
}

// Targets a file can be loaded into.
func target(k int64) any {
	switch k {
	case 0:
		return &cfg{}
	case 1: // defaults to be overridden
		return &cfg{Name: "default", Version: -1, Peers: []string{"a", "b", "c", "d", "e"}, Limits: map[string]int{"keep": 1}, Note: "kept", Sub: &cfgSub{Rate: 2.5}}
	case 2:
		return &map[string]any{}
	case 3:
		return &[]int{7, 8, 9}
	case 4:
		var a any = "unset"
		return &a
	case 5:
		var p *cfg
		return &p
	case 6:
		return cfg{Name: "by value"}
	}
	return (*cfg)(nil)
}

func cfgGen(g *kit.Gen) {
	incs := g.Range(1, 3)
	g.Set("incs", int64(incs))
	g.Set("init", int64(g.N(3)))
	n := g.Range(1, 3)
	g.Set("loaders", int64(n))
	g.Set("lat", g.Pick(0, 0, 1, 2, 3))
	if g.P(1, 2) {
		g.Set("eintr", g.Pick(0, 100, 400))
		g.Set("short", g.Pick(0, 200, 600))
	}
	if g.P(1, 3) {
		g.Set("eio", g.Pick(0, 50, 300))
		g.Set("openerr", g.Pick(0, 50, 300))
	}
	inPlace := g.P(1, 3)
	v := int64(g.U64() % (1 << 40))
	for i := 0; i < incs; i++ {
		st := func() int64 {
			if g.P(1, 3) {
				return int64(g.N(25))
			}
			return 0
		}
		for k := g.N(4); k > 0; k-- {
			how := g.Pick(1, 1, 1, 2)
			if inPlace && g.P(1, 2) {
				how = 0
			}
			dmg := int64(0)
			if g.P(1, 2) {
				dmg = int64(g.N(nDamage))
			}
			g.Op(i*10, "put", v, st(), how|dmg<<2)
			v++
		}
		for c := 1; c <= n; c++ {
			for k := g.Range(1, 4); k > 0; k-- {
				if g.P(1, 5) {
					g.Op(i*10+c, "exist", 0, st())
					continue
				}
				t := g.Pick(0, 0, 1, 1, 2, 3, 4, 5, 6, 7)
				g.Op(i*10+c, "load", t, st())
			}
		}
		if g.P(1, 2) {
			g.Op(i*10+9, "crash", 0, int64(g.N(60)))
		}
	}
	g.Set("initv", v)
	g.Set("initdmg", int64(g.N(nDamage))*int64(g.N(2)))
}

func stall(n int64) {
	if n > 0 {
		kit.Hit(faStall)
	}
	kit.Stall(n)
}

// load is one call.
type load struct {
	op       kit.Op
	inc      int
	inv, ret uint64
	dead     bool // its process crashed meanwhile
	val      any
	err      error
	exists   bool
}

//go:norace
func (x *load) begin() { x.inv = kit.Log(1, x.op.A, 0, 0) }

//go:norace
func (x *load) end() {
	x.ret = kit.Log(2, x.op.A, 0, 0)
	x.dead = kit.DiskProc() != x.inc
}

func (x *load) do() {
	path := common.AbsolutePath(dataDir, "config.json")
	if x.op.A%2 == 1 {
		path = common.AbsolutePath("/elsewhere", cfgPath)
	}
	if x.op.K == "exist" {
		x.begin()
		x.exists = common.FileExist(path)
		x.end()
		return
	}
	x.val = target(x.op.A)
	x.begin()
	x.err = common.LoadJSON(path, x.val)
	x.end()
}

func cfgPut(o kit.Op) {
	data := cfgText(o.A, o.N>>2)
	switch o.N & 3 {
	case 0:
		os.WriteFile(cfgPath, data, 0o644)
	case 1:
		tmp := fmt.Sprintf("%s.%d", cfgPath, o.A)
		if os.WriteFile(tmp, data, 0o644) == nil {
			os.Rename(tmp, cfgPath)
		}
	case 2:
		os.Remove(cfgPath)
	}
}

func cfgFaults(r *kit.Run) kit.DiskFaults {
	return kit.DiskFaults{Short: int(r.P("short")), EINTR: int(r.P("eintr")), EIO: int(r.P("eio")),
		OpenErr: int(r.P("openerr")), Latency: int(r.P("lat"))}
}

//go:norace
func cfgCrash(inc int) {
	if kit.DiskProc() == inc {
		kit.Log(3, int64(inc), 0, 0)
		kit.DiskCrash()
	}
}

func cfgExec(r *kit.Run) {
	switch r.P("init") {
	case 1:
		kit.DiskPut(cfgPath, cfgText(r.P("initv"), r.P("initdmg")))
	case 2:
		kit.DiskPut(cfgPath, cfgText(r.P("initv"), 0))
	}
	kit.DiskTrack(cfgPath)
	var all []*load
	run := func(inc, c int, l []*load) {
		r.Go("loader", func() {
			defer kit.Publish()
			kit.DiskJoin(inc)
			for _, x := range l {
				stall(x.op.B)
				x.do()
			}
		})
	}
	incs := int(r.P("incs"))
	for inc := 0; inc < incs; inc++ {
		if inc > 0 && kit.DiskProc() < inc {
			cfgCrash(inc - 1)
		}
		kit.DiskSetFaults(cfgFaults(r))
		puts := r.Ops(inc * 10)
		r.Go("writer", func() {
			defer kit.Publish()
			kit.DiskJoin(inc)
			for _, o := range puts {
				stall(o.B)
				cfgPut(o)
			}
		})
		for c := 1; c <= int(r.P("loaders")); c++ {
			var l []*load
			for _, o := range r.Ops(inc*10 + c) {
				x := &load{op: o, inc: inc}
				l = append(l, x)
				all = append(all, x)
			}
			run(inc, c, l)
		}
		for _, o := range r.Ops(inc*10 + 9) {
			r.Go("crash", func() {
				stall(o.B)
				cfgCrash(inc)
				kit.Publish()
			})
		}
		if !r.Drain() || !r.MustEnd("loading a configuration file") {
			return
		}
		if kit.DiskProc() == inc && kit.DiskOpenFDs() != 0 {
			r.Violate("descriptor", "%d descriptors are still open", kit.DiskOpenFDs())
			return
		}
	}
	// The next incarnation loads whatever is there, on a working disk.
	cfgCrash(incs - 1)
	kit.DiskSetFaults(kit.DiskFaults{})
	var l []*load
	for k := int64(0); k < 3; k++ {
		x := &load{op: kit.Op{K: "load", A: k % 3, C: incs * 10}, inc: incs}
		if k == 2 {
			x.op.K = "exist"
		}
		l = append(l, x)
		all = append(all, x)
	}
	run(incs, 0, l)
	if !r.Drain() || !r.MustEnd("loading a configuration file") {
		return
	}
	states, hard := kit.DiskStates()
	for _, x := range all {
		if !x.dead && !cfgCheck(r, x, states, hard) {
			return
		}
	}
}

var lineRe = regexp.MustCompile(`(?:^|[^0-9])([0-9]+)(?:[^0-9]|$)`)

func cfgCheck(r *kit.Run, x *load, states []kit.DiskState, hard []uint64) bool {
	var seen []kit.DiskState
	mixed, faulty := false, false
	for i, s := range states {
		switch {
		case s.Seq < x.inv:
			seen = states[i : i+1]
		case s.Seq < x.ret:
			seen = append(seen[:len(seen):len(seen)], s)
			mixed = mixed || s.InPlace
		}
	}
	for _, h := range hard {
		faulty = faulty || h > x.inv && h < x.ret
	}
	missing, present := false, false
	for _, s := range seen {
		missing = missing || !s.Exists
		present = present || s.Exists
	}
	if x.op.K == "exist" {
		if x.exists && !present && !faulty {
			r.Violate("exist", "a file that does not exist is said to")
			return false
		}
		if !x.exists && !missing {
			r.Violate("exist", "an existing file is said not to exist (disk faults: %v)", faulty)
			return false
		}
		return true
	}
	if len(seen) > 1 {
		kit.Hit(prReplaced)
	}
	if mixed {
		kit.Hit(prMixed)
		return true
	}
	var why []string
	for _, s := range seen {
		w := cfgExplain(x, s, faulty)
		if w == "" {
			return true
		}
		why = append(why, w)
	}
	r.Violate("load", "loading (target %d, disk faults %v) returned %v, value %s; %s", x.op.A, faulty, x.err, show(x.val), strings.Join(why, "; or "))
	return false
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%.200s", b)
}

// cfgExplain returns "" if the call's result is right for this state of the
// file, else what would have been.
func cfgExplain(x *load, s kit.DiskState, faulty bool) string {
	clean := target(x.op.A)
	want := target(x.op.A)
	untouched := reflect.DeepEqual(x.val, clean)
	isJSON := x.err != nil && strings.Contains(x.err.Error(), "JSON")
	if faulty && x.err != nil && !isJSON {
		kit.Hit(prUnread)
		if !untouched {
			return "an unreadable file should leave the value alone"
		}
		if errors.Is(x.err, fs.ErrNotExist) && s.Exists {
			return "the file exists"
		}
		return ""
	}
	if !s.Exists {
		if x.err == nil || !errors.Is(x.err, fs.ErrNotExist) {
			return "the file does not exist"
		}
		if !untouched {
			return "a missing file should leave the value alone"
		}
		kit.Hit(prMissing)
		return ""
	}
	err := json.Unmarshal(s.Data, want)
	if err == nil {
		if x.err != nil {
			return fmt.Sprintf("the file is well-formed: %.200q", s.Data)
		}
		if !reflect.DeepEqual(x.val, want) {
			return "the file says " + show(want)
		}
		kit.Hit(prLoaded)
		return ""
	}
	if x.err == nil {
		return fmt.Sprintf("the file is bad: %v in %.200q", err, s.Data)
	}
	if !isJSON || !strings.Contains(x.err.Error(), cfgPath) {
		return fmt.Sprintf("the error should name the file and say that its JSON is bad (%v)", err)
	}
	se, syntax := err.(*json.SyntaxError)
	if !syntax {
		if !reflect.DeepEqual(x.val, want) {
			return "the value should hold what could be loaded: " + show(want)
		}
		kit.Hit(prType)
		return ""
	}
	if !untouched {
		return "a malformed file should leave the value alone"
	}
	kit.Hit(prSyntax)
	if x.inc > 0 && !bytes.HasSuffix(bytes.TrimSpace(s.Data), []byte("}")) && s.InPlace {
		kit.Hit(prTornCfg)
	}
	off := int(se.Offset)
	after := 1 + bytes.Count(s.Data[:off], []byte("\n"))
	at := after
	if off > 0 {
		at = 1 + bytes.Count(s.Data[:off-1], []byte("\n"))
	}
	text := strings.Replace(x.err.Error(), cfgPath, "", 1)
	text = strings.Replace(text, err.Error(), "", 1)
	for _, m := range lineRe.FindAllStringSubmatch(text, -1) {
		if n, _ := strconv.Atoi(m[1]); n == at || n == after {
			return ""
		}
	}
	return fmt.Sprintf("the mistake is in line %d of %.300q", at, s.Data)
}
