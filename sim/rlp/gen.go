//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"io"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"flychain/rlp/zzrlpgen"
	"flychain/zzverifsim/kit"
)

// C32: peers that each generate the methods of the message types of one
// program, and then exchange messages over an unreliable network: a message is
// written by the generated EncodeRLP of one version of its type, and read by
// the generated DecodeRLP of the same or another version. The generated code
// is compiled (type-checked) together with its program, compared between
// peers, and executed by an interpreter on a stand-in for the package rlp; a
// codec of the harness's own says what each message must be and what is read
// from it.
//
//	op "send": A message type, B value seed, N fault | stall<<4
//	op "recv": A reader's version, B fault, N stall
//	op "bad":  A unsupported type, B variant
func init() {
	kit.Register(&kit.Prop{ID: "C32", Slow: true, Steps: 3000, StepCap: 3000000, Gen: genGen, Exec: genExec})
}

var (
	prGenerated  = kit.Ctr("probe.methods_generated")
	prWritten    = kit.Ctr("probe.values_written")
	prRead       = kit.Ctr("probe.values_read")
	prReadErr    = kit.Ctr("probe.malformed_messages_refused")
	prVersion    = kit.Ctr("probe.message_of_another_version")
	prEmbed      = kit.Ctr("probe.embedded_field")
	prUnsup      = kit.Ctr("probe.unsupported_type_refused")
	prNotRun     = kit.Ctr("probe.generated_code_beyond_the_interpreter")
	prNegative   = kit.Ctr("probe.negative_integer_refused")
	prOptOmitted = kit.Ctr("probe.optional_fields_omitted")
	faLost       = kit.Ctr("fault.message_lost")
	faDup        = kit.Ctr("fault.message_duplicated")
	faReord      = kit.Ctr("fault.message_overtaken")
	faTrunc      = kit.Ctr("fault.message_truncated")
	faFlip       = kit.Ctr("fault.message_corrupted")
	faShape      = kit.Ctr("fault.message_with_items_missing_added_or_exchanged")
	faExtra      = kit.Ctr("fault.message_with_trailing_bytes")
	faReader     = kit.Ctr("fault.reader_failed")
	faWriter     = kit.Ctr("fault.writer_failed")
	faCustom     = kit.Ctr("fault.value_refused_to_be_encoded")
	knNil        = kit.Ctr("known.nil_not_skipped")
	knEmpty      = kit.Ctr("known.slice_of_empty_structs")
	knNamed      = kit.Ctr("known.pointer_to_named_slice")
)

// The genuine defects of known_findings.txt, by counter: whatever fails in just
// that way is counted, unless it is not listed.
var knownList = os.Getenv("VERIF_KNOWN")

func listed(ctr int) bool {
	name := map[int]string{knNil: "nil_not_skipped", knEmpty: "slice_of_empty_structs", knNamed: "pointer_to_named_slice"}[ctr]
	for _, s := range strings.Split(knownList, ",") {
		if s == name {
			return true
		}
	}
	return false
}

func genGen(g *kit.Gen) {
	c := g.Range(2, 3)
	m := g.Range(1, 3)
	g.Set("clients", int64(c))
	g.Set("messages", int64(m))
	g.Set("base", int64(g.U64()%(1<<40)))
	if g.P(1, 12) {
		g.Set("big", 1)
	}
	if g.P(1, 12) {
		g.Set("named", 1)
	}
	g.Set("loss", g.Pick(0, 0, 5, 20))
	g.Set("dup", g.Pick(0, 0, 5, 20))
	g.Set("hold", g.Pick(0, 0, 10, 40))
	g.Set("spoil", g.Pick(0, 0, 10, 40))
	for i := 0; i < c; i++ {
		for k := g.Range(2, 10); k > 0; k-- {
			switch g.N(8) {
			case 0:
				g.Op(i, "bad", int64(g.N(len(badTypes))), int64(g.N(6)))
			case 1, 2, 3:
				g.Op(i, "recv", int64(g.N(2)), int64(g.U64()%(1<<30)), int64(g.N(10)))
			default:
				f := int64(0)
				if g.P(1, 8) {
					f = 1
				}
				g.Op(i, "send", int64(g.N(2*m)), int64(g.U64()%(1<<40)), f|int64(g.N(10))<<4)
			}
		}
	}
}

// badTypes cannot be generated for; the field at fault is Fx. Further
// declarations follow the body.
var badTypes = [][2]string{
	{"struct { A uint64; Fx int }", ""},
	{"struct { A uint64; Fx int64 }", ""},
	{"struct { A uint64; Fx uint }", ""},
	{"struct { A uint64; Fx float64 }", ""},
	{"struct { Fx map[string]uint64 }", ""},
	{"struct { Fx interface{} }", ""},
	{"struct { A *big.Int; Fx big.Word }", ""},
	{"struct { A *big.Int; Fx *big.Word }", ""},
	{"struct { Fx chan uint8 }", ""},
	{"struct { A uint64; Fx error }", ""},
	{"struct { Fx []error }", ""},
	{"struct { A string; Fx *error }", ""},
	{"struct { Fx complex128 }", ""},
	{"struct { Fx uintptr; B bool }", ""},
	{"[X any] struct { A uint64; Fx X }", ""},
	{"struct { Fx func() }", ""},
	{"struct { Fx [3]uint64 }", ""},
	{"struct { Fx []int }", ""},
	{"struct { Fx *int }", ""},
	{"struct { Fx struct { A uint64; B int32 } }", ""},
	{"struct { Fx BadIn }", "type BadIn struct { A [2]string }"},
	{"struct { Fx *BadEnc }", "type BadEnc struct{}\nfunc (*BadEnc) EncodeRLP(io.Writer) error { return nil }"},
	{"struct { Fx *BadDec }", "type BadDec struct{}\nfunc (*BadDec) DecodeRLP(*rlp.Stream) error { return nil }"},
	{"struct { Fx BadVal }", "type BadVal struct{}\nfunc (BadVal) DecodeRLP(*rlp.Stream) error { return nil }"},
	{"struct { A uint64; Fx []uint64 `rlp:\"tail\"` }", ""},
	{"struct { Fx uint64 `rlp:\"nil\"` }", ""},
	{"struct { Fx []uint64 `rlp:\"tail,optional\"` }", ""},
	{"struct { Fx uint64 `rlp:\"unknown\"` }", ""},
	{"struct { A uint64 `rlp:\"optional\"`; Fx uint64 }", ""},
	{"struct { A uint64; Fx big.Int `rlp:\"optional\"` }", ""},
	{"struct { A uint64; Fx struct{ L []uint64 } `rlp:\"optional\"` }", ""},
	{"struct { A uint64; Fx []Bad }", ""},
	{"struct { A uint64; Fx *Bad `rlp:\"nil\"` }", ""},
	{"struct { Fx BadL }", "type BadL []BadL"},
	{"struct { Fx BadM }", "type BadM struct { N []*BadM }"},
	{"uint64", ""},
	{"= struct{ A uint64 }", ""},
}

// method is the generated code of one type, ready to run.
type method struct {
	n        *node
	name     string
	code     string
	enc, dec *ast.FuncDecl
	info     *types.Info
}

type message struct {
	typ, ver int
	b        []byte
	spoiled  bool
}

type family struct{ ver []*node }

var namedSlice = regexp.MustCompile(`cannot use .*\(.*\*\[\].*\) as \*\S+ value`)

var unusedVar = regexp.MustCompile(`declared and not used: \w+$`)

func genExec(r *kit.Run) {
	x := &rnd{uint64(r.P("base"))}
	w := newWorld(x)
	w.big = r.P("big") == 1
	w.noNamed = r.P("named") != 1
	var fams []family
	for i := int64(0); i < max(r.P("messages"), 1); i++ {
		name := fmt.Sprintf("M%d", i)
		n := w.structOf(2, name, false)
		f := family{[]*node{n, n}}
		// An older version lacks the optional fields at the end.
		k := len(n.fields)
		for k > 0 && n.fields[k-1].optional && x.n(3) != 0 {
			k--
		}
		old := append([]field(nil), n.fields[:k]...)
		w.decl(name+"Old", "type "+name+"Old "+structSrc(old))
		f.ver[1] = mkStruct(name+"Old", true, old)
		fams = append(fams, f)
	}
	bad := badTypes[x.n(len(badTypes))]
	for _, o := range r.Plan.Ops {
		if o.K == "bad" {
			bad = badTypes[o.A%int64(len(badTypes))]
		}
	}
	w.decl("Bad", "type Bad "+bad[0]+"\n"+bad[1])
	src := w.source()
	pkg, err := w.check("test", src)
	if err != nil {
		panic(fmt.Sprintf("HARNESS: %v in\n%s", err, src))
	}
	wire := make(chan message, 64)
	in := make(chan message, 256)
	nc := int(r.P("clients"))
	done := make(chan bool, nc)
	codes := make([]map[string]string, nc)
	for c := 0; c < nc; c++ {
		ops := r.Ops(c)
		codes[c] = map[string]string{}
		p := &peer{r: r, w: w, pkg: pkg, src: src, fams: fams, x: &rnd{uint64(r.P("base")) + uint64(c)*977}, wire: wire, in: in, codes: codes[c], bad: bad[0]}
		r.Go("peer", func() {
			defer kit.Publish()
			p.run(ops)
			done <- true
			for m := range in {
				p.recv(m, int(p.x.n(2)), p.x.n(1<<30))
			}
		})
	}
	r.Go("network", func() {
		defer kit.Publish()
		n := &rnd{uint64(r.P("base")) ^ 0x5555}
		var held []message
		deliver := func(m message) {
			if n.n(100) < int(r.P("spoil")) {
				m = spoil(n, m)
			}
			in <- m
		}
		for left := nc; left > 0; {
			select {
			case <-done:
				left--
			case m := <-wire:
				switch {
				case n.n(100) < int(r.P("loss")):
					kit.Hit(faLost)
					continue
				case n.n(100) < int(r.P("hold")):
					kit.Hit(faReord)
					held = append(held, m)
					continue
				}
				deliver(m)
				if n.n(100) < int(r.P("dup")) {
					kit.Hit(faDup)
					deliver(m)
				}
			}
		}
		for len(wire) > 0 {
			deliver(<-wire)
		}
		for _, m := range held {
			deliver(m)
		}
		close(in)
	})
	if !r.Drain() || !r.MustEnd("generating code and exchanging messages") {
		return
	}
	for c := 1; c < nc; c++ {
		for k, v := range codes[c] {
			if v0, ok := codes[0][k]; ok && v0 != v {
				r.Violate("differs", "two generators made different code of the same type %s:\n%s\n%s", k, v0, v)
			}
		}
	}
}

func spoil(n *rnd, m message) message {
	b := append([]byte(nil), m.b...)
	m.spoiled = true
	switch n.n(8) {
	case 5, 6, 7: // a well-formed message of another shape
		kit.Hit(faShape)
		b = reshape(n, b)
	case 0:
		kit.Hit(faTrunc)
		b = b[:n.n(len(b)+1)]
	case 1:
		kit.Hit(faExtra)
		b = append(b, byte(n.n(256)))
	case 2: // the message is taken for one of another type
		kit.Hit(faFlip)
		m.typ++
	default:
		kit.Hit(faFlip)
		for k := 1 + n.n(2); k > 0 && len(b) > 0; k-- {
			i := n.n(len(b))
			if n.n(2) == 0 {
				i = n.n(min(len(b), 4))
			}
			b[i] = []byte{0, 1, 0x7f, 0x80, 0x81, 0xb8, 0xc0, 0xc1, 0xff, b[i] + 1, b[i] - 1, b[i] ^ 0x40}[n.n(12)]
		}
	}
	m.b = b
	return m
}

// reshape drops, repeats, adds, empties or exchanges items of one of the lists
// in a message.
func reshape(n *rnd, b []byte) []byte {
	s := newStream(b)
	k, hdr, size, err := s.head()
	if err != nil || k != kList {
		return b
	}
	var items [][]byte
	for in := newStream(b[hdr : hdr+size]); ; {
		_, h, l, err := in.head()
		if err != nil {
			break
		}
		if h+l == 0 {
			l = 1
		}
		items = append(items, in.b[in.pos:in.pos+h+l])
		in.pos += h + l
	}
	var lists []int
	for i, it := range items {
		if it[0] >= 0xc0 {
			lists = append(lists, i)
		}
	}
	if len(lists) > 0 && n.n(3) > 0 {
		i := lists[n.n(len(lists))]
		items[i] = reshape(n, append([]byte(nil), items[i]...))
	} else {
		add := [][]byte{{0x80}, {0xc0}, {1}, {0x81, 0x80}, {0xc1, 0xc0}, {0}}[n.n(6)]
		i := 0
		if len(items) > 0 {
			i = n.n(len(items))
			if n.n(2) == 0 {
				i = len(items) - 1
			}
		}
		switch k := n.n(6); {
		case len(items) == 0 || k == 0:
			items = append(items, add)
		case k == 1:
			items[i] = add
		case k == 2:
			items = append(items, items[i])
		case k == 3:
			j := n.n(len(items))
			items[i], items[j] = items[j], items[i]
		default:
			items = append(items[:i:i], items[i+1:]...)
		}
	}
	return encList(bytes.Join(items, nil))
}

// peer is one client.
type peer struct {
	r     *kit.Run
	w     *world
	pkg   *types.Package
	src   string
	bad   string
	fams  []family
	x     *rnd
	wire  chan message
	in    chan message
	ms    map[string]*method
	objs  map[string]reflect.Value
	codes map[string]string
	conv  map[string]reflect.Type
	gen   *zzrlpgen.Generator
}

func (p *peer) run(ops []kit.Op) {
	p.ms, p.objs, p.conv = map[string]*method{}, map[string]reflect.Value{}, map[string]reflect.Type{}
	p.gen = zzrlpgen.NewGenerator(p.w.pkgs["rlp"])
	for _, o := range ops {
		if p.r.Bad() {
			return
		}
		switch o.K {
		case "send":
			p.send(int(o.A)/2%len(p.fams), int(o.A)%2, &rnd{uint64(o.B)}, o.N&15)
			kit.Stall(o.N >> 4)
		case "recv":
			select {
			case m := <-p.in:
				p.recv(m, int(o.A)%2, int(o.B))
			default:
			}
			kit.Stall(o.N)
		case "bad":
			p.refused(o.B)
		}
	}
}

func (p *peer) refused(v int64) {
	name := "Bad"
	if v == 5 {
		name = "NoSuchType"
	}
	code, err := p.gen.Generate(p.pkg.Scope(), name, v&1 == 0, v&2 == 0)
	kit.Hit(prUnsup)
	switch {
	case err == nil:
		p.r.Violate("unsupported", "code was generated for the unsupported type %s:\n%s", p.bad, code)
	case code != nil:
		p.r.Violate("unsupported", "code was returned with the error %q", err)
	case v != 5 && strings.Contains(p.bad, "Fx") && !strings.Contains(err.Error(), "Fx"):
		p.r.Violate("unsupported", "the error %q does not name the field Fx of %s", err, p.bad)
	}
}

// method generates the code of a type the first time it is needed.
func (p *peer) method(typ, ver int) *method {
	n := p.fams[typ].ver[ver]
	if ver == 0 {
		n = p.fams[typ].ver[0]
	}
	if m := p.ms[n.src]; m != nil {
		return m
	}
	m := &method{n: n, name: n.src}
	p.ms[n.src] = m
	if p.x.n(3) == 0 {
		// A generator of its own, instead of the one used before.
		p.gen = zzrlpgen.NewGenerator(p.w.pkgs["rlp"])
	}
	// One of the methods alone, or both.
	for _, k := range []int{p.x.n(12), 3} {
		if k == 0 || k > 3 {
			continue
		}
		code, err := p.gen.Generate(p.pkg.Scope(), n.src, k&1 != 0, k&2 != 0)
		if err != nil {
			p.r.Violate("refused", "no code was generated for the type %s: %v\n%s", n.src, err, p.src)
			return m
		}
		kit.Hit(prGenerated)
		p.codes[fmt.Sprint(n.src, k)] = string(code)
		p.compile(m, string(code), k)
		if p.r.Bad() {
			return m
		}
	}
	return m
}

// compile type-checks generated code together with the program it is for.
func (p *peer) compile(m *method, code string, k int) {
	fset := p.w.fset
	f0, err := parser.ParseFile(fset, "test.go", p.src, 0)
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, "gen.go", code, 0)
	if err != nil {
		p.r.Violate("compile", "the generated code is no Go: %v\n%s", err, code)
		return
	}
	var errs []error
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: p.w, Error: func(err error) { errs = append(errs, err) }}
	conf.Check("test", fset, []*ast.File{f0, f}, info)
	m.enc, m.dec = nil, nil
	for _, e := range errs {
		if p.w.known && listed(knNamed) && namedSlice.MatchString(e.Error()) {
			kit.Hit(knNamed)
			return
		}
		if p.w.empty && listed(knEmpty) && unusedVar.MatchString(e.Error()) {
			kit.Hit(knEmpty)
			return
		}
		p.r.Violate("compile", "the generated code does not compile: %v\n%s\n%s", e, code, p.src)
		return
	}
	var names []string
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			names = append(names, fd.Name.Name)
			switch fd.Name.Name {
			case "EncodeRLP":
				m.enc = fd
			case "DecodeRLP":
				m.dec = fd
			}
		}
	}
	if (m.enc != nil) != (k&1 != 0) || (m.dec != nil) != (k&2 != 0) {
		sort.Strings(names)
		p.r.Violate("methods", "other methods than those asked for were generated: %v", names)
	}
	m.info = info
	m.code = code
}

type writer struct {
	b    []byte
	n    int
	fail bool
}

func (w *writer) Write(b []byte) (int, error) {
	kit.Yield()
	w.n++
	if w.fail {
		return 0, errWriter
	}
	w.b = append(w.b, b...)
	return len(b), nil
}

func (p *peer) interp(m *method) *interp { return &interp{info: m.info, conv: p.conv} }

func (p *peer) send(typ, ver int, x *rnd, fault int64) {
	m := p.method(typ, ver)
	if m.enc == nil || m.dec == nil || p.r.Bad() {
		return
	}
	v := reflect.New(m.n.rt)
	m.n.value(x, v.Elem(), 0)
	want, werr := m.n.encode(v.Elem(), 0)
	before, _ := m.n.encode(v.Elem(), 0)
	out := &writer{fail: fault == 1}
	err, crash, odd := p.interp(m).call(m.enc, v, reflect.ValueOf(io.Writer(out)))
	switch {
	case odd != "":
		kit.Hit(prNotRun)
		return
	case crash != nil:
		p.r.Violate("crash", "the generated EncodeRLP of %s crashed: %v\n%s", m.name, crash, m.code)
		return
	}
	if after, _ := m.n.encode(v.Elem(), 0); !bytes.Equal(before, after) {
		p.r.Violate("written", "writing a %s changed it", m.name)
	}
	kit.Hit(prWritten)
	if werr != nil {
		if werr == errNegative {
			kit.Hit(prNegative)
		} else {
			kit.Hit(faCustom)
		}
		if err == nil || err != errNegative && err != errCustom {
			p.r.Violate("written", "writing a %s that cannot be written (%v) ended with %v", m.name, werr, err)
		}
		if out.n != 0 {
			p.r.Violate("written", "part of a %s that cannot be written was written", m.name)
		}
		return
	}
	if fault == 1 {
		kit.Hit(faWriter)
		if err != errWriter {
			p.r.Violate("written", "writing a %s to a writer that failed ended with %v", m.name, err)
		}
		return
	}
	if err != nil || !bytes.Equal(out.b, want) {
		p.r.Violate("written", "a %s was written as %x (%v) instead of %x\n%s\n%s", m.name, out.b, err, want, p.w.decls[m.name], m.code)
		return
	}
	p.wire <- message{typ: typ, ver: ver, b: out.b}
}

func (p *peer) recv(msg message, ver, seed int) {
	if p.r.Bad() {
		return
	}
	typ := msg.typ % len(p.fams)
	m := p.method(typ, ver)
	if m.dec == nil || m.enc == nil || p.r.Bad() {
		return
	}
	if ver != msg.ver {
		kit.Hit(prVersion)
	}
	x := &rnd{uint64(seed)}
	// Read into an object that has been used before, or a new one.
	obj := reflect.New(m.n.rt)
	if x.n(2) == 0 {
		m.n.value(x, obj.Elem(), 0)
	}
	before := show(obj.Elem())
	failAt := -1
	if x.n(6) == 0 && len(msg.b) > 0 {
		failAt = x.n(len(msg.b))
		kit.Hit(faReader)
	}
	mk := func(lax bool) *stream { return &stream{b: msg.b, failAt: failAt, lax: lax} }
	s := mk(true)
	err, crash, odd := p.interp(m).call(m.dec, obj, reflect.ValueOf(s))
	switch {
	case odd != "":
		kit.Hit(prNotRun)
		return
	case crash != nil:
		p.r.Violate("crash", "the generated DecodeRLP of %s crashed: %v\n%s", m.name, crash, m.code)
		return
	}
	got := show(obj.Elem())
	if err != nil && got != before {
		p.r.Violate("read", "a read that failed with %v changed the %s to %s from %s", err, m.name, got, before)
		return
	}
	same := func(lax bool) (bool, string) {
		s2 := mk(lax)
		ref := reflect.New(m.n.rt)
		werr := m.n.decode(s2, ref.Elem(), nil)
		if werr != nil {
			return err != nil, fmt.Sprint("the error ", werr)
		}
		return err == nil && show(ref.Elem()) == got && s.pos == s2.pos, show(ref.Elem())
	}
	if ok, want := same(false); !ok {
		if ok, _ := same(true); ok && listed(knNil) {
			kit.Hit(knNil)
			return
		}
		p.r.Violate("read", "%x was read as the %s %s (%v) instead of %s\n%s\n%s", msg.b, m.name, got, err, want, p.w.decls[m.name], m.code)
		return
	}
	if err != nil {
		kit.Hit(prReadErr)
	} else {
		kit.Hit(prRead)
		if len(m.n.fields) > 0 && m.n.fields[len(m.n.fields)-1].optional && obj.Elem().Field(len(m.n.fields)-1).IsZero() {
			kit.Hit(prOptOmitted)
		}
	}
}

// show prints a value in full, through pointers.
func show(v reflect.Value) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type().String() == "big.Int" && v.CanAddr() {
			fmt.Fprint(&b, v.Addr().Interface())
			return
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString("&")
			walk(v.Elem())
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				walk(v.Field(i))
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					fmt.Fprintf(&b, "%02x", v.Index(i).Uint())
				}
				b.WriteString("h")
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				walk(v.Index(i))
			}
			b.WriteString("]")
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		default:
			fmt.Fprint(&b, v)
		}
	}
	walk(v)
	return b.String()
}
