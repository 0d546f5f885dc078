//go:build go1.22

package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"regexp"
	"strings"

	"flychain/zzverifsim/kit"
)

// node describes one type: its Go source, and the same for reflection and for
// the reference encoding.
type node struct {
	kind   string // bool uint8 uint16 uint32 uint64 string bytes array bigint bigptr raw ptr slice struct cust
	src    string
	elem   *node
	n      int
	fields []field
	rt     reflect.Type
	cmp    bool // values can be compared with !=
	named  bool
}

type field struct {
	name     string
	embedded bool
	t        *node
	tag      string
	ignored  bool // "-" or not exported
	optional bool
	nilOK    bool
	nilKind  byte
	at       int
}

var scalars = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)),
	"uint64": reflect.TypeOf(uint64(0)), "string": reflect.TypeOf(""), "bytes": reflect.TypeOf([]byte(nil)), "raw": reflect.TypeOf([]byte(nil)),
	"bigint": reflect.TypeOf(big.Int{}), "bigptr": reflect.TypeOf((*big.Int)(nil)), "cust": reflect.TypeOf((*cust)(nil)),
}

// world is the program of one run: the types of two packages.
type world struct {
	x       *rnd
	decls   map[string]string // of package test
	order   []string
	n       int
	structs []*node // named structs that may be used again
	fset    *token.FileSet
	pkgs    map[string]*types.Package
	pkg     *types.Package
	known   bool // pointers to named slices occur
	big     bool
	empty   bool // slices of structs without fields occur
	noNamed bool
	clash   int // what names of packages mean elsewhere
}

func (w *world) Import(path string) (*types.Package, error) {
	if p := w.pkgs[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("no package %q", path)
}

func (w *world) check(path, src string) (*types.Package, error) {
	f, err := parser.ParseFile(w.fset, path+".go", src, 0)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: w}
	p, err := conf.Check(path, w.fset, []*ast.File{f}, nil)
	if err == nil {
		w.pkgs[path] = p
	}
	return p, err
}

const otherSource = `package other

type Pair struct {
	X uint64
	Y string
}
type Deep struct {
	P    Pair
	L    []Pair
	note uint64
}
type Word [4]byte
type Blob []byte
type Num uint32
type Int uint16
`

// The types of this package have the names of the other's.
const moreSource = `

type Pair struct {
	L bool
	R []uint64
	S string
}
type Deep []Pair
type Word struct{ Hi, Lo uint64 }
type Blob string
type Num uint64
`

var (
	baseFset = token.NewFileSet()
	basePkgs = map[string]*types.Package{}
)

// clashes are names of a package that mean something else in the program, or
// in the code made for it. The program imports the package as "more".
var clashes = []string{"other", "big", "rlp", "io", "obj", "dec", "w", "err", "string", "uint64", "T", "other2"}

// init checks the packages every program imports.
func init() {
	w := &world{fset: baseFset, pkgs: basePkgs}
	for _, p := range [][2]string{
		{"io", "package io\ntype Writer interface{ Write([]byte) (int, error) }\n"},
		{"math/big", "package big\ntype Word uint\ntype Int struct { neg bool; abs []uint }\nfunc (*Int) Sign() int { return 0 }\n"},
		{"rlp", rlpSource}, {"lib/other", otherSource}, {"lib/more", "package more" + moreSource},
	} {
		if _, err := w.check(p[0], p[1]); err != nil {
			panic(err)
		}
	}
	for _, name := range clashes {
		p := [2]string{"lib/more/" + name, "package " + name + moreSource}
		if _, err := w.check(p[0], p[1]); err != nil {
			panic(err)
		}
	}
}

func newWorld(x *rnd) *world {
	w := &world{x: x, decls: map[string]string{}, fset: token.NewFileSet(), pkgs: map[string]*types.Package{}}
	for path, p := range basePkgs {
		w.pkgs[path] = p
	}
	if x.n(2) == 0 {
		w.clash = 1 + x.n(3*len(clashes))
	}
	return w
}

func (w *world) decl(name, body string) {
	w.decls[name] = body
	w.order = append(w.order, name)
}

func (w *world) fresh(p string) string { w.n++; return fmt.Sprintf("%s%d", p, w.n) }

func sc(kind string) *node { return &node{kind: kind, src: kind, rt: scalars[kind], cmp: true} }

func mkStruct(src string, named bool, fs []field) *node {
	n := &node{kind: "struct", src: src, fields: fs, cmp: true, named: named}
	var rf []reflect.StructField
	for i := range fs {
		fs[i].at = i
		f := reflect.StructField{Name: fs[i].name, Type: fs[i].t.rt, Tag: reflect.StructTag(fs[i].tag)}
		if f.Name[0] >= 'a' {
			f.PkgPath = "test"
		}
		rf = append(rf, f)
		n.cmp = n.cmp && fs[i].t.cmp
	}
	n.rt = reflect.StructOf(rf)
	return n
}

var anyNode = []string{"error", "*error", "[]error", "complex64", "map[string]int", "interface{}", "func()", "chan int", "[]map[int]bool", "int", "float64", "RecL", "*RecS"}

// leaf is a type that is not made of others.
func (w *world) leaf() *node {
	switch w.x.n(19) {
	case 0:
		return sc("bool")
	case 1:
		return sc("uint8")
	case 2:
		return sc("uint16")
	case 3:
		return sc("uint32")
	case 4, 5:
		return sc("uint64")
	case 6, 7:
		return sc("string")
	case 8:
		return &node{kind: "bytes", src: "[]byte", rt: scalars["bytes"]}
	case 9, 10:
		n := []int{1, 2, 3, 4, 20, 32, 0}[w.x.n(7)]
		return &node{kind: "array", src: fmt.Sprintf("[%d]byte", n), n: n, rt: reflect.ArrayOf(n, scalars["uint8"]), cmp: true}
	case 11:
		return &node{kind: "bigint", src: "big.Int", rt: scalars["bigint"]}
	case 12, 13:
		return &node{kind: "bigptr", src: "*big.Int", rt: scalars["bigptr"], cmp: true}
	case 14:
		return &node{kind: "raw", src: "rlp.RawValue", rt: scalars["raw"], named: true}
	case 15:
		return w.namedLeaf()
	case 16:
		return w.fromOther()
	default:
		if w.decls["Cust"] == "" {
			w.decl("Cust", "type Cust struct{ X uint64 }\nfunc (c *Cust) EncodeRLP(w io.Writer) error { return nil }\nfunc (c *Cust) DecodeRLP(s *rlp.Stream) error { return nil }")
		}
		return &node{kind: "cust", src: "*Cust", rt: scalars["cust"], cmp: true}
	}
}

func (w *world) namedLeaf() *node {
	name := w.fresh("N")
	var n *node
	switch w.x.n(5) {
	case 0:
		n = sc([]string{"bool", "bool", "bool", "uint8", "uint16", "uint32", "uint64", "string"}[w.x.n(8)])
	case 1:
		n = sc("uint64")
	case 2:
		n = &node{kind: "bytes", src: "[]byte", rt: scalars["bytes"]}
	default:
		l := 1 + w.x.n(32)
		n = &node{kind: "array", src: fmt.Sprintf("[%d]byte", l), n: l, rt: reflect.ArrayOf(l, scalars["uint8"]), cmp: true}
	}
	w.decl(name, "type "+name+" "+n.src)
	n.src, n.named = name, true
	return n
}

func (w *world) fromOther() *node {
	pair := func() *node {
		return mkStruct("other.Pair", true, []field{{name: "X", t: sc("uint64")}, {name: "Y", t: sc("string")}})
	}
	more := func() *node {
		u := sc("uint64")
		return mkStruct("more.Pair", true, []field{{name: "L", t: sc("bool")},
			{name: "R", t: &node{kind: "slice", src: "[]uint64", elem: u, rt: reflect.SliceOf(u.rt)}}, {name: "S", t: sc("string")}})
	}
	switch w.x.n(11) {
	case 10:
		n := sc("uint16")
		n.src, n.named = "other.Int", true
		return n
	case 5:
		return more()
	case 6:
		return &node{kind: "slice", src: "more.Deep", elem: more(), rt: reflect.SliceOf(more().rt), named: true}
	case 7:
		return mkStruct("more.Word", true, []field{{name: "Hi", t: sc("uint64")}, {name: "Lo", t: sc("uint64")}})
	case 8:
		n := sc("string")
		n.src, n.named = "more.Blob", true
		return n
	case 9:
		n := sc("uint64")
		n.src, n.named = "more.Num", true
		return n
	case 0:
		return pair()
	case 1:
		return mkStruct("other.Deep", true, []field{{name: "P", t: pair()},
			{name: "L", t: &node{kind: "slice", elem: pair(), rt: reflect.SliceOf(pair().rt)}}, {name: "note", t: sc("uint64"), ignored: true}})
	case 2:
		return &node{kind: "array", src: "other.Word", n: 4, rt: reflect.ArrayOf(4, scalars["uint8"]), cmp: true, named: true}
	case 3:
		return &node{kind: "bytes", src: "other.Blob", rt: scalars["bytes"], named: true}
	default:
		n := sc("uint32")
		n.src, n.named = "other.Num", true
		return n
	}
}

// typ is a random type.
func (w *world) typ(depth int) *node {
	k := w.x.n(12)
	if depth <= 0 || k < 6 {
		return w.leaf()
	}
	switch {
	case k < 8:
		e := w.typ(depth - 1)
		for e.kind == "ptr" || e.kind == "bigptr" || e.kind == "bigint" || e.kind == "cust" {
			e = w.leaf()
		}
		if (e.kind == "bytes" || e.kind == "raw" || e.kind == "slice") && e.named {
			if w.noNamed {
				return e
			}
			w.known = true
		}
		return &node{kind: "ptr", src: "*" + e.src, elem: e, rt: reflect.PointerTo(e.rt), cmp: true}
	case k < 10:
		e := w.typ(depth - 1)
		if e.kind == "uint8" {
			e = sc("uint16")
		}
		if e.hollow() {
			if w.noNamed {
				return e
			}
			w.empty = true
		}
		n := &node{kind: "slice", src: "[]" + e.src, elem: e, rt: reflect.SliceOf(e.rt)}
		if w.x.n(8) == 0 {
			n.src = w.fresh("L")
			n.named = true
			w.decl(n.src, "type "+n.src+" []"+e.src)
		}
		return n
	case len(w.structs) > 0 && w.x.n(3) == 0:
		return w.structs[w.x.n(len(w.structs))]
	default:
		anon := w.x.n(4) == 0
		n := w.structOf(depth-1, "", anon)
		if !anon {
			w.structs = append(w.structs, n)
		}
		return n
	}
}

// hollow tells if writing n does not look at the value.
func (n *node) hollow() bool {
	if n.kind != "struct" {
		return false
	}
	for _, f := range n.fields {
		if !f.ignored && !f.t.hollow() {
			return false
		}
	}
	return true
}

// refNilByte stands for a nil pointer to n where no tag says what does.
func refNilByte(n *node) byte {
	switch n.kind {
	case "bool", "uint8", "uint16", "uint32", "uint64", "string", "bytes", "raw", "array":
		return 0x80
	}
	return 0xc0
}

// structOf makes a struct type; name is empty for one of its own.
func (w *world) structOf(depth int, name string, anon bool) *node {
	n := w.x.n(6)
	if name != "" {
		n++
		if w.big && w.x.n(2) == 0 {
			n = 10 + w.x.n(40)
		}
	} else if !anon {
		name = w.fresh("S")
	}
	opt := n
	if w.x.n(3) == 0 {
		opt = w.x.n(n + 1)
	}
	var fs []field
	names := map[string]bool{}
	for i := 0; i < n; i++ {
		f := field{name: fmt.Sprintf("F%d", i)}
		var tags []string
		switch w.x.n(12) {
		case 0: // skipped, so it can be anything
			f.t = &node{src: anyNode[w.x.n(len(anyNode))]}
			f.ignored = true
			if w.x.n(2) == 0 {
				f.name = fmt.Sprintf("f%d", i)
			} else {
				tags = append(tags, "-")
			}
			switch f.t.src {
			case "RecL", "*RecS":
				if w.decls["RecL"] == "" {
					w.decl("RecL", "type RecL []RecL\ntype RecS struct{ L []*RecS; M RecL }")
				}
				f.t.rt = reflect.TypeOf(map[string]int(nil))
			case "int":
				f.t.rt, f.t.cmp = reflect.TypeOf(0), true
			case "float64":
				f.t.rt, f.t.cmp = reflect.TypeOf(0.0), true
			default:
				f.t.rt = reflect.TypeOf(map[string]int(nil))
			}
		default:
			f.t = w.typ(depth)
		}
		if !f.ignored && i >= opt {
			for (f.t.kind == "struct" || f.t.kind == "bigint") && !f.t.cmp {
				f.t = w.leaf()
			}
			f.optional = true
			tags = append(tags, "optional")
		}
		if f.t.kind == "ptr" && !f.ignored {
			f.nilKind = refNilByte(f.t.elem)
			switch w.x.n(5) {
			case 0:
				tags, f.nilOK = append(tags, "nil"), true
			case 1:
				tags, f.nilOK, f.nilKind = append(tags, "nilString"), true, 0x80
			case 2:
				tags, f.nilOK, f.nilKind = append(tags, "nilList"), true, 0xc0
			}
		}
		if id := embeddedName(f.t); id != "" && !f.ignored && !names[id] && w.x.n(5) == 0 {
			f.name, f.embedded, names[id] = id, true, true
			kit.Hit(prEmbed)
		}
		if len(tags) == 2 && w.x.n(2) == 0 {
			tags[0], tags[1] = tags[1], tags[0]
		}
		if len(tags) > 0 {
			f.tag = fmt.Sprintf("rlp:%q", strings.Join(tags, ","))
		}
		fs = append(fs, f)
	}
	src := structSrc(fs)
	if !anon {
		w.decl(name, "type "+name+" "+src)
		src = name
	}
	return mkStruct(src, !anon, fs)
}

var embeddable = regexp.MustCompile(`^\*?(?:[a-z]+\.)?([A-Z]\w*)$`)

// embeddedName is the name of a field of type n without one of its own.
func embeddedName(n *node) string {
	b := n
	if n.kind == "ptr" {
		b = n.elem
		if b.kind != "struct" {
			return ""
		}
	}
	if m := embeddable.FindStringSubmatch(n.src); m != nil && b.named {
		return m[1]
	}
	return ""
}

func structSrc(fs []field) string {
	var b strings.Builder
	b.WriteString("struct {")
	for i, f := range fs {
		if i > 0 {
			b.WriteString("; ")
		}
		if f.embedded {
			b.WriteString(f.t.src)
		} else {
			fmt.Fprintf(&b, "%s %s", f.name, f.t.src)
		}
		if f.tag != "" {
			fmt.Fprintf(&b, " `%s`", f.tag)
		}
	}
	b.WriteString("}")
	return b.String()
}

// source is the package made of the declarations.
func (w *world) source() string {
	var b strings.Builder
	b.WriteString("package test\n\n")
	if w.decls["Cust"] != "" || strings.Contains(w.all(), "io.Writer") {
		b.WriteString("import \"io\"\n")
	}
	a := w.all()
	for _, p := range [][2]string{{"math/big", "big."}, {"rlp", "rlp."}, {"lib/other", "other."}, {"lib/more", "more."}} {
		if !strings.Contains(a, p[1]) {
			continue
		}
		switch {
		case p[0] == "lib/more" && w.clash > 0:
			fmt.Fprintf(&b, "import more %q\n", p[0]+"/"+clashes[w.clash%len(clashes)])
		case p[0] == "lib/other" && w.clash > len(clashes):
			// The package's name means something else in this program.
			fmt.Fprintf(&b, "import lib %q\n", p[0])
			a = strings.ReplaceAll(a, "other.", "lib.") + "\nconst other = 1\n"
			if w.clash > 2*len(clashes) {
				a += "\ntype other2 struct{ N uint64 }\n"
			}
		default:
			fmt.Fprintf(&b, "import %q\n", p[0])
		}
	}
	b.WriteString(a)
	return b.String()
}

func (w *world) all() string {
	var b strings.Builder
	for _, n := range w.order {
		b.WriteString(w.decls[n] + "\n")
	}
	return b.String()
}

// ---- values ----

// value fills v with a random value of type n.
func (n *node) value(x *rnd, v reflect.Value, depth int) {
	zero := x.n(4) == 0
	switch n.kind {
	case "bool":
		v.SetBool(!zero)
	case "uint8", "uint16", "uint32", "uint64":
		if !zero {
			x.x++
			u := []uint64{1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 1<<32 - 1, 1 << 32, 1<<64 - 1, x.x * 0x9e3779b97f4a7c15, 77}[x.n(12)]
			bits := uint(v.Type().Bits())
			v.SetUint(u << (64 - bits) >> (64 - bits))
		}
	case "string":
		if !zero {
			v.SetString(string(x.raw(x.len())))
		}
	case "bytes":
		if !zero {
			v.SetBytes(x.raw(x.len()))
		}
	case "raw":
		v.SetBytes([][]byte{{0x80}, {0xc0}, {5}, {0x82, 1, 2}, {0xc3, 0x82, 1, 2}, encBytes(x.raw(x.len()))}[x.n(6)])
	case "array":
		if !zero {
			reflect.Copy(v, reflect.ValueOf(x.raw(n.n)))
		}
	case "bigint", "bigptr":
		i := new(big.Int)
		if !zero {
			i.SetBytes(x.raw(x.n(40)))
			if x.n(25) == 0 {
				i.Neg(i)
			}
		}
		if n.kind == "bigptr" {
			if x.n(5) != 0 {
				v.Set(reflect.ValueOf(i))
			}
		} else {
			v.Set(reflect.ValueOf(i).Elem())
		}
	case "cust":
		if x.n(5) != 0 {
			v.Set(reflect.ValueOf(&cust{[]uint64{0, 1, 126, 127, 1 << 40, 78, 76}[x.n(7)]}))
			if x.n(12) == 0 {
				v.Set(reflect.ValueOf(&cust{77}))
			}
		}
	case "ptr":
		if !zero {
			p := reflect.New(n.elem.rt)
			n.elem.value(x, p.Elem(), depth)
			v.Set(p)
		}
	case "slice":
		if !zero {
			l := x.n(4)
			if depth == 0 && x.n(10) == 0 {
				l = 4 + x.n(60)
			}
			s := reflect.MakeSlice(n.rt, l, l)
			for i := 0; i < l; i++ {
				n.elem.value(x, s.Index(i), depth+1)
			}
			v.Set(s)
		}
	case "struct":
		from := len(n.fields) + 1
		if x.n(2) == 0 {
			from = x.n(len(n.fields) + 1) // optional fields from here on are zero
		}
		for i, f := range n.fields {
			if f.ignored || f.optional && i >= from {
				continue
			}
			f.t.value(x, v.Field(i), depth+1)
		}
	}
}

func (x *rnd) len() int {
	if x.n(12) == 0 {
		return 50 + x.n(300)
	}
	return x.n(8)
}

// ---- reference encoding ----

// encode is the encoding of v; nilByte stands for a nil pointer.
func (n *node) encode(v reflect.Value, nilByte byte) ([]byte, error) {
	switch n.kind {
	case "bool":
		if v.Bool() {
			return []byte{1}, nil
		}
		return []byte{0x80}, nil
	case "uint8", "uint16", "uint32", "uint64":
		return encUint(v.Uint()), nil
	case "string":
		return encBytes([]byte(v.String())), nil
	case "bytes":
		return encBytes(v.Bytes()), nil
	case "raw":
		return v.Bytes(), nil
	case "array":
		b := make([]byte, n.n)
		reflect.Copy(reflect.ValueOf(b), v)
		return encBytes(b), nil
	case "bigint", "bigptr":
		var i *big.Int
		if n.kind == "bigptr" {
			i = v.Interface().(*big.Int)
		} else {
			j := v.Interface().(big.Int)
			i = &j
		}
		if i == nil {
			return []byte{0x80}, nil
		}
		if i.Sign() < 0 {
			return nil, errNegative
		}
		return encBytes(i.Bytes()), nil
	case "cust":
		b := newEncBuf(nil)
		err := v.Interface().(*cust).EncodeRLP(b)
		return b.b, err
	case "ptr":
		if v.IsNil() {
			if nilByte == 0 {
				nilByte = refNilByte(n.elem)
			}
			return []byte{nilByte}, nil
		}
		return n.elem.encode(v.Elem(), 0)
	case "slice":
		var all []byte
		for i := 0; i < v.Len(); i++ {
			b, err := n.elem.encode(v.Index(i), 0)
			if err != nil {
				return nil, err
			}
			all = append(all, b...)
		}
		return encList(all), nil
	}
	last := -1 // the last field to be written
	for i, f := range n.fields {
		if f.ignored {
			continue
		}
		zero := v.Field(i).IsZero()
		if f.t.kind == "slice" || f.t.kind == "bytes" || f.t.kind == "raw" {
			zero = v.Field(i).Len() == 0
		}
		if !f.optional || !zero {
			last = i
		}
	}
	var all []byte
	for i, f := range n.fields {
		if f.ignored || i > last {
			continue
		}
		b, err := f.t.encode(v.Field(i), f.nilKind)
		if err != nil {
			return nil, err
		}
		all = append(all, b...)
	}
	return encList(all), nil
}

// decode reads a value of type n into v.
func (n *node) decode(s *stream, v reflect.Value, f *field) error {
	switch n.kind {
	case "bool":
		b, err := s.Bool()
		v.SetBool(b)
		return err
	case "uint8", "uint16", "uint32", "uint64":
		u, err := s.uint(v.Type().Bits() / 8)
		v.SetUint(u)
		return err
	case "string":
		b, err := s.str()
		v.SetString(string(b))
		return err
	case "bytes":
		b, err := s.Bytes()
		v.SetBytes(b)
		return err
	case "raw":
		b, err := s.Raw()
		v.SetBytes(b)
		return err
	case "array":
		b := make([]byte, n.n)
		err := s.ReadBytes(b)
		reflect.Copy(v, reflect.ValueOf(b))
		return err
	case "bigint", "bigptr":
		i, err := s.num(0)
		if err != nil {
			return err
		}
		if n.kind == "bigptr" {
			v.Set(reflect.ValueOf(i))
		} else {
			v.Set(reflect.ValueOf(i).Elem())
		}
		return nil
	case "cust":
		c := new(cust)
		v.Set(reflect.ValueOf(c))
		return c.DecodeRLP(s)
	case "ptr":
		if f != nil && f.nilOK {
			k, size, err := s.Kind()
			if err != nil {
				return err
			}
			if size == 0 && (k == kList && f.nilKind == 0xc0 || k == kString && f.nilKind == 0x80) {
				// The empty value stands for nil, and is consumed.
				if !s.lax {
					s.pos++
				}
				v.SetZero()
				return nil
			}
		}
		p := reflect.New(n.elem.rt)
		v.Set(p)
		return n.elem.decode(s, p.Elem(), nil)
	case "slice":
		if _, err := s.List(); err != nil {
			return err
		}
		v.SetZero()
		for s.MoreDataInList() {
			e := reflect.New(n.elem.rt).Elem()
			if err := n.elem.decode(s, e, nil); err != nil {
				return err
			}
			v.Set(reflect.Append(v, e))
		}
		return s.ListEnd()
	}
	if _, err := s.List(); err != nil {
		return err
	}
	for i := range n.fields {
		f := &n.fields[i]
		if f.ignored {
			continue
		}
		if f.optional && !s.MoreDataInList() {
			break
		}
		if err := f.t.decode(s, v.Field(i), f); err != nil {
			return err
		}
	}
	return s.ListEnd()
}
