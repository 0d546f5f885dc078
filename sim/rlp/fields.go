//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"flychain/rlp/zzrlpgen"
	"flychain/zzverifsim/kit"
)

// C45: the tags of struct fields, interpreted for several callers at once that
// share the lists of fields. Results are compared with the rules after a
// stall, and then overwritten.
//
//	op "fields": A list, N stall
func init() {
	kit.Register(&kit.Prop{ID: "C45", Slow: true, Steps: 1500, Gen: fieldsGen, Exec: fieldsExec})
}

var (
	prAccepted = kit.Ctr("probe.field_list_accepted")
	prRefusedF = kit.Ctr("probe.field_list_refused")
	prTail     = kit.Ctr("probe.tail_field")
	prOptional = kit.Ctr("probe.optional_fields")
	prNil      = kit.Ctr("probe.nil_tag")
	faOwnF     = kit.Ctr("fault.result_overwritten_by_its_owner")
)

func fieldsGen(g *kit.Gen) {
	c := g.Range(2, 4)
	n := g.Range(1, 4)
	g.Set("clients", int64(c))
	g.Set("lists", int64(n))
	g.Set("base", int64(g.U64()%(1<<40)))
	for i := 0; i < c; i++ {
		for k := g.Range(2, 8); k > 0; k-- {
			st := int64(0)
			if g.P(1, 3) {
				st = int64(g.N(20))
			}
			g.Op(i, "fields", int64(g.N(n)), 0, st)
		}
	}
}

var scalarKinds = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
	reflect.Uint64, reflect.Uintptr, reflect.String, reflect.Struct, reflect.Map, reflect.Interface, reflect.Float64}

func (x *rnd) typ(depth int) zzrlpgen.Type {
	t := zzrlpgen.Type{Name: fmt.Sprintf("T%d", x.n(100)), IsEncoder: x.n(8) == 0, IsDecoder: x.n(8) == 0}
	switch k := x.n(8); {
	case k < 3 && depth > 0:
		t.Kind = reflect.Ptr
	case k == 3 && depth > 0:
		t.Kind = reflect.Slice
	case k == 4 && depth > 0:
		t.Kind = reflect.Array
	default:
		t.Kind = scalarKinds[x.n(len(scalarKinds))]
		return t
	}
	var e zzrlpgen.Type
	if x.n(3) == 0 {
		e = zzrlpgen.Type{Name: "byte", Kind: reflect.Uint8, IsEncoder: x.n(6) == 0}
	} else {
		e = x.typ(depth - 1)
	}
	t.Elem = &e
	return t
}

// fieldList is a list of fields with tags that mostly make sense.
func (x *rnd) fieldList() []zzrlpgen.Field {
	n := 1 + x.n(7)
	if x.n(40) == 0 {
		n = 20 + x.n(200)
	}
	if x.n(40) == 0 {
		n = 0
	}
	l := make([]zzrlpgen.Field, n, n+2)
	from := n
	if x.n(2) == 0 {
		from = x.n(n + 1) // from here on fields are optional
	}
	sane := x.n(4) != 0
	for i := range l {
		f := zzrlpgen.Field{Name: fmt.Sprintf("F%d", i), Index: i, Exported: x.n(6) != 0, Type: x.typ(3)}
		if !f.Exported {
			f.Name = fmt.Sprintf("f%d", i)
		}
		var tags []string
		if i >= from {
			tags = append(tags, "optional")
		}
		if f.Type.Kind == reflect.Ptr && x.n(2) == 0 {
			tags = append(tags, []string{"nil", "nilString", "nilList"}[x.n(3)])
		}
		if i == n-1 && x.n(3) == 0 {
			if i < from || x.n(3) == 0 {
				if f.Type.Kind != reflect.Slice && x.n(4) != 0 {
					f.Type = zzrlpgen.Type{Name: "S", Kind: reflect.Slice, Elem: &zzrlpgen.Type{Name: "uint64", Kind: reflect.Uint64}}
				}
				tags = append(tags, "tail")
			}
		}
		if x.n(8) == 0 {
			tags = append(tags, "-")
		}
		if x.n(8) == 0 {
			tags = append(tags, "")
		}
		if !sane && x.n(n) == 0 {
			tags = append(tags, []string{"nil", "nilString", "nilList", "optional", "tail", "-", "unknown", "Optional", "tails", "nillist", "omitempty"}[x.n(11)])
		}
		for j := len(tags) - 1; j > 0; j-- {
			k := x.n(j + 1)
			tags[j], tags[k] = tags[k], tags[j]
		}
		sep := []string{",", ", ", " ,"}[x.n(3)]
		s := strings.Join(tags, sep)
		switch {
		case s == "" && x.n(2) == 0:
		case x.n(4) == 0:
			f.Tag = fmt.Sprintf("json:%q rlp:%q", "tail,x", s)
		default:
			f.Tag = fmt.Sprintf("rlp:%q", s)
		}
		l[i] = f
	}
	return l
}

// refNil is the value standing in for a nil pointer to t.
func refNil(t zzrlpgen.Type) zzrlpgen.NilKind {
	switch t.Kind {
	case reflect.Bool, reflect.String, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return 0x80
	case reflect.Slice, reflect.Array:
		if t.Elem.Kind == reflect.Uint8 && !t.Elem.IsEncoder {
			return 0x80
		}
	}
	return 0xc0
}

// refFields applies the rules; bad holds the names of fields that break one.
func refFields(l []zzrlpgen.Field) (idx []int, tags []zzrlpgen.Tags, bad map[string]bool) {
	bad = map[string]bool{}
	last := -1
	for i, f := range l {
		if f.Exported {
			last = i
		}
	}
	opt := false
	for i, f := range l {
		if !f.Exported {
			continue
		}
		var t zzrlpgen.Tags
		v, _ := reflect.StructTag(f.Tag).Lookup("rlp")
		for _, w := range strings.Split(v, ",") {
			switch strings.TrimSpace(w) {
			case "":
			case "-":
				t.Ignored = true
			case "nil":
				t.NilOK = true
				if f.Type.Kind != reflect.Ptr {
					bad[f.Name] = true
				} else {
					t.NilKind = refNil(*f.Type.Elem)
				}
			case "nilString":
				t.NilOK, t.NilKind = true, 0x80
				bad[f.Name] = bad[f.Name] || f.Type.Kind != reflect.Ptr
			case "nilList":
				t.NilOK, t.NilKind = true, 0xc0
				bad[f.Name] = bad[f.Name] || f.Type.Kind != reflect.Ptr
			case "optional":
				t.Optional = true
			case "tail":
				t.Tail = true
				bad[f.Name] = bad[f.Name] || i != last || f.Type.Kind != reflect.Slice
			default:
				bad[f.Name] = true
			}
		}
		if t.Optional && t.Tail {
			bad[f.Name] = true
		}
		if t.Ignored {
			continue
		}
		if t.Optional || t.Tail {
			opt = true
		} else if opt {
			bad[f.Name] = true
		}
		idx, tags = append(idx, i), append(tags, t)
	}
	for n, b := range bad {
		if !b {
			delete(bad, n)
		}
	}
	return
}

// deepCopy copies a type so that a change to what it points at is noticed.
func copyType(t zzrlpgen.Type) zzrlpgen.Type {
	if t.Elem != nil {
		e := copyType(*t.Elem)
		t.Elem = &e
	}
	return t
}

func fieldsExec(r *kit.Run) {
	type list struct{ l, keep []zzrlpgen.Field }
	var ls []list
	for i := int64(0); i < max(r.P("lists"), 1); i++ {
		x := &rnd{uint64(r.P("base") + i*7919)}
		l := x.fieldList()
		keep := append(make([]zzrlpgen.Field, 0, len(l)), l...)
		for j := range keep {
			keep[j].Type = copyType(keep[j].Type)
		}
		ls = append(ls, list{l, keep})
	}
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		r.Go("reader of tags", func() {
			defer kit.Publish()
			var check func()
			for _, o := range ops {
				in := ls[int(o.A)%len(ls)]
				fields, tags, err := zzrlpgen.ProcessFields(in.l)
				if check != nil {
					check()
				}
				check = func() { fieldsCheck(r, in.keep, fields, tags, err) }
				stall(o.N)
			}
			if check != nil {
				check()
			}
		})
	}
	if !r.Drain() || !r.MustEnd("interpreting tags") {
		return
	}
	for _, in := range ls {
		if !reflect.DeepEqual(in.l, in.keep) {
			r.Violate("input", "the fields given were changed")
		}
	}
}

// blames says whether an error names a tag the field at fault has, or else an
// optional field before it.
func blames(in []zzrlpgen.Field, te zzrlpgen.TagError) bool {
	for i, f := range in {
		if f.Name != te.Field {
			continue
		}
		for _, t := range strings.Split(reflect.StructTag(f.Tag).Get("rlp"), ",") {
			if t = strings.TrimSpace(t); t != "" && t == te.Tag {
				return true
			}
		}
		for _, o := range in[:i] {
			for _, t := range strings.Split(reflect.StructTag(o.Tag).Get("rlp"), ",") {
				if strings.TrimSpace(t) == "optional" && o.Exported && te.Tag == "" && strings.Contains(te.Err, strconv.Quote(o.Name)) {
					return true
				}
			}
		}
	}
	return false
}

func fieldsCheck(r *kit.Run, in, fields []zzrlpgen.Field, tags []zzrlpgen.Tags, err error) {
	idx, want, bad := refFields(in)
	show := func() string {
		var b strings.Builder
		for _, f := range in {
			fmt.Fprintf(&b, "%s %v `%s`; ", f.Name, f.Type.Kind, f.Tag)
		}
		return b.String()
	}
	if len(bad) > 0 {
		kit.Hit(prRefusedF)
		if err == nil {
			r.Violate("accepted", "fields that break the rules (%v) were accepted: %s", bad, show())
			return
		}
		if fields != nil || tags != nil {
			r.Violate("refused", "refused fields were returned, too: %s", show())
		}
		var te zzrlpgen.TagError
		if !errors.As(err, &te) || !bad[te.Field] {
			r.Violate("error", "the error %q names the field %q, not one of those at fault (%v): %s", err, te.Field, bad, show())
			return
		}
		if !blames(in, te) {
			r.Violate("error", "the error %q for the field %s names neither a tag of its nor an optional field before it: %s", te.Error(), te.Field, show())
			return
		}
		te.StructType = ""
		if s := " " + te.Error() + " "; !strings.Contains(s, " "+te.Field+" ") || !strings.Contains(s, te.Err) || te.Err == "" {
			r.Violate("error", "the error %q does not name the field %q", te.Error(), te.Field)
		}
		te.StructType = "Some"
		if s := " " + te.Error() + " "; !strings.Contains(s, " Some."+te.Field+" ") {
			r.Violate("error", "the error %q does not name the field %q of its struct", te.Error(), te.Field)
		}
		return
	}
	kit.Hit(prAccepted)
	if err != nil {
		r.Violate("refused", "fields that keep the rules were refused with %q: %s", err, show())
		return
	}
	if len(fields) != len(idx) || len(tags) != len(idx) {
		r.Violate("fields", "%d fields and %d tags were returned instead of %d: %s", len(fields), len(tags), len(idx), show())
		return
	}
	for i, j := range idx {
		if !reflect.DeepEqual(fields[i], in[j]) {
			r.Violate("fields", "field number %d returned is %+v instead of %+v", i, fields[i], in[j])
			return
		}
		if tags[i] != want[i] {
			r.Violate("tags", "the tags of field %s `%s` are %+v instead of %+v", in[j].Name, in[j].Tag, tags[i], want[i])
			return
		}
		switch {
		case tags[i].Tail:
			kit.Hit(prTail)
		case tags[i].Optional:
			kit.Hit(prOptional)
		}
		if tags[i].NilOK {
			kit.Hit(prNil)
		}
	}
	for i := range fields {
		fields[i] = zzrlpgen.Field{Name: "overwritten"}
		tags[i] = zzrlpgen.Tags{Ignored: true, Tail: true}
		kit.Hit(faOwnF)
	}
}
