//go:build go1.22

package main

import (
	"bytes"
	"encoding"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"

	"flychain/common"
	"flychain/common/hexutil"
	"flychain/common/math"
	"flychain/zzverifsim/kit"
)

// C27: values saved as JSON by one process and loaded by the next, with
// crashes, disk faults and other processes that edit the file. Client c of
// incarnation i is i*10+c: 0 saves, 1-3 load, 4-5 use the values meanwhile,
// 9 crashes.
//
//	op "save": A version, B stall, N: 0-1 how (in place, replaced, removed), 2: indented, 3-7 field to edit, 8.. edit
//	op "load": A version of the values before, B stall
//	op "show": A version, B stall, N 1: texts only, 2: JSON too
//	op "crash": B stall
func init() {
	kit.Register(&kit.Prop{ID: "C27", Slow: true, Steps: 900, StepCap: 4000000, Gen: savGen, Exec: savExec})
}

var (
	prSavLoaded  = kit.Ctr("probe.saved_values_loaded")
	prSavEdited  = kit.Ctr("probe.edited_value_accepted")
	prSavRefused = kit.Ctr("probe.malformed_value_refused")
	prSavTorn    = kit.Ctr("probe.torn_file_refused")
	prSavNext    = kit.Ctr("probe.loaded_by_a_later_process")
	prSavShown   = kit.Ctr("probe.values_used_concurrently")
)

type saved struct {
	H common.Hash
	U common.UnprefixedHash
	A common.Address
	V common.UnprefixedAddress
	M *common.MixedcaseAddress
	D hexutil.Bytes
	B *hexutil.Big
	N hexutil.Uint64
	K hexutil.Uint
	X *math.HexOrDecimal256
	Y *math.Decimal256
	L []common.Address
	P map[common.Hash]hexutil.Bytes
	Q map[common.Address]*hexutil.Big
}

const savFields = "HUAVMDBNKXYLPQ"

// plain is what the values are, field by field, in a form of the harness.
type plain map[byte]string

type rnd struct{ x uint64 }

func (r *rnd) n(n int) int { r.x = kit.Mix(r.x); return int(r.x % uint64(n)) }

// raw is n bytes, often special ones.
func (r *rnd) raw(n int) []byte {
	b := make([]byte, n)
	k := r.n(8)
	for i := range b {
		r.x = kit.Mix(r.x)
		switch k {
		case 0: // zero
		case 1:
			b[i] = 0xff
		default:
			b[i] = byte(r.x)
		}
	}
	if n == 0 {
		return b
	}
	switch k {
	case 2: // leading zeros
		for i := r.n(n); i > 0; i-- {
			b[i-1] = 0
		}
	case 3: // trailing zeros
		for i := r.n(n); i < n; i++ {
			b[i] = 0
		}
	case 4: // one bit
		for i := range b {
			b[i] = 0
		}
		b[r.n(n)] = 1 << r.n(8)
	case 5:
		b[0] &= 0x0f
	}
	return b
}

func (r *rnd) num(bits int) *big.Int {
	v := new(big.Int).SetBytes(r.raw(bits / 8))
	if r.n(2) == 0 {
		v.Rsh(v, uint(r.n(bits+1)))
	}
	return v
}

func recase(r *rnd, s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'f' && r.n(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}

// savMake is the values of a version, and what they are.
func savMake(v int64) (*saved, plain) {
	r := &rnd{uint64(v)*104729 + 11}
	s, p := &saved{}, plain{}
	set := func(f byte, b []byte) []byte { p[f] = hex.EncodeToString(b); return b }
	num := func(f byte, bits int) *big.Int { n := r.num(bits); p[f] = n.String(); return n }
	copy(s.H[:], set('H', r.raw(32)))
	copy(s.U[:], set('U', r.raw(32)))
	copy(s.A[:], set('A', r.raw(20)))
	copy(s.V[:], set('V', r.raw(20)))
	text := recase(r, hex.EncodeToString(r.raw(20)))
	m, err := common.NewMixedcaseAddressFromString([]string{"0x", "0X", ""}[r.n(3)] + text)
	if err != nil {
		panic(err)
	}
	if r.n(12) == 0 { // never set
		m, text = new(common.MixedcaseAddress), strings.Repeat("0", 40)
	}
	s.M, p['M'] = m, "0x"+text
	s.D = set('D', r.raw([]int{0, 1, 2, 5, 32, 33}[r.n(6)]))
	s.B = (*hexutil.Big)(num('B', 256))
	s.N = hexutil.Uint64(num('N', 64).Uint64())
	s.K = hexutil.Uint(num('K', 64).Uint64())
	s.X = (*math.HexOrDecimal256)(num('X', 256))
	s.Y = (*math.Decimal256)(num('Y', 256))
	s.L, s.P, s.Q = []common.Address{}, map[common.Hash]hexutil.Bytes{}, map[common.Address]*hexutil.Big{}
	var l, pp, q []string
	for k := r.n(4); k > 0; k-- {
		a := common.Address(r.raw(20))
		s.L = append(s.L, a)
		l = append(l, hex.EncodeToString(a[:]))
		h, d := common.Hash(r.raw(32)), r.raw(r.n(9))
		if _, ok := s.P[h]; !ok {
			s.P[h] = d
			pp = append(pp, hex.EncodeToString(h[:])+"="+hex.EncodeToString(d))
		}
		a, n := common.Address(r.raw(20)), r.num(256)
		if _, ok := s.Q[a]; !ok {
			s.Q[a] = (*hexutil.Big)(n)
			q = append(q, hex.EncodeToString(a[:])+"="+n.String())
		}
	}
	sort.Strings(pp)
	sort.Strings(q)
	p['L'], p['P'], p['Q'] = strings.Join(l, ","), strings.Join(pp, ","), strings.Join(q, ",")
	return s, p
}

// savPlain is what loaded values are.
func savPlain(s *saved) plain {
	p := plain{
		'H': hex.EncodeToString(s.H[:]), 'U': hex.EncodeToString(s.U[:]),
		'A': hex.EncodeToString(s.A[:]), 'V': hex.EncodeToString(s.V[:]),
		'D': hex.EncodeToString(s.D), 'N': fmt.Sprint(uint64(s.N)), 'K': fmt.Sprint(uint(s.K)),
		'M': "?", 'B': "?", 'X': "?", 'Y': "?",
	}
	if s.M != nil {
		a := s.M.Address()
		p['M'] = s.M.Original()
		if p['M'] == "" { // never set
			p['M'] = hex.EncodeToString(a[:])
		}
		if !strings.EqualFold(strings.TrimPrefix(strings.ToLower(p['M']), "0x"), hex.EncodeToString(a[:])) {
			p['M'] += " for " + hex.EncodeToString(a[:])
		}
		p['M'] = strings.Replace(p['M'], "0X", "0x", 1)
		if !strings.HasPrefix(p['M'], "0x") {
			p['M'] = "0x" + p['M']
		}
	}
	if s.B != nil {
		p['B'] = (*big.Int)(s.B).String()
	}
	if s.X != nil {
		p['X'] = (*big.Int)(s.X).String()
	}
	if s.Y != nil {
		p['Y'] = (*big.Int)(s.Y).String()
	}
	var l, pp, q []string
	for _, a := range s.L {
		l = append(l, hex.EncodeToString(a[:]))
	}
	for h, d := range s.P {
		pp = append(pp, hex.EncodeToString(h[:])+"="+hex.EncodeToString(d))
	}
	for a, n := range s.Q {
		q = append(q, hex.EncodeToString(a[:])+"="+(*big.Int)(n).String())
	}
	sort.Strings(pp)
	sort.Strings(q)
	p['L'], p['P'], p['Q'] = strings.Join(l, ","), strings.Join(pp, ","), strings.Join(q, ",")
	return p
}

var (
	reFixed = regexp.MustCompile(`^0[xX]((?:[0-9a-fA-F]{2})*)$`)
	reBare  = regexp.MustCompile(`^(?:0[xX])?((?:[0-9a-fA-F]{2})*)$`)
	reQty   = regexp.MustCompile(`^0[xX](0|[1-9a-fA-F][0-9a-fA-F]*)$`)
	reHex   = regexp.MustCompile(`^0[xX]([0-9a-fA-F]+)$`)
	reDec   = regexp.MustCompile(`^([+-]?[0-9]+)$`)
)

// refText is the value a text stands for in a field, if it does.
func refText(f byte, s string) (string, bool) {
	fixed := func(re *regexp.Regexp, n int) (string, bool) {
		m := re.FindStringSubmatch(s)
		if m == nil || n >= 0 && len(m[1]) != 2*n {
			return "", false
		}
		return strings.ToLower(m[1]), true
	}
	number := func(re *regexp.Regexp, base, bits int) (string, bool) {
		m := re.FindStringSubmatch(s)
		if m == nil {
			return "", false
		}
		v, ok := new(big.Int).SetString(m[1], base)
		if !ok || v.BitLen() > bits {
			return "", false
		}
		return v.String(), true
	}
	if s == "" { // the empty text is no bytes, and zero
		switch f {
		case 'D':
			return "", true
		case 'B', 'N', 'K', 'X', 'Y':
			return "0", true
		}
		return "", false
	}
	switch f {
	case 'H':
		return fixed(reFixed, 32)
	case 'U':
		return fixed(reBare, 32)
	case 'A':
		return fixed(reFixed, 20)
	case 'V':
		return fixed(reBare, 20)
	case 'M':
		if _, ok := fixed(reFixed, 20); !ok {
			return "", false
		}
		return "0x" + s[2:], true
	case 'D':
		return fixed(reFixed, -1)
	case 'B':
		return number(reQty, 16, 256)
	case 'N', 'K':
		return number(reQty, 16, 64)
	case 'X', 'Y':
		if v, ok := number(reHex, 16, 256); ok {
			return v, ok
		}
		return number(reDec, 10, 256)
	}
	panic("field")
}

// refField is the value a JSON token stands for in a field, if it does.
func refField(f byte, tok json.RawMessage) (string, bool) {
	pairs := func(kf, vf byte) (string, bool) {
		var m map[string]string
		if json.Unmarshal(tok, &m) != nil {
			return "", false
		}
		var l []string
		for k, v := range m {
			a, ok1 := refText(kf, k)
			b, ok2 := refText(vf, v)
			if !ok1 || !ok2 {
				return "", false
			}
			l = append(l, a+"="+b)
		}
		sort.Strings(l)
		return strings.Join(l, ","), true
	}
	switch f {
	case 'L':
		var l []string
		if json.Unmarshal(tok, &l) != nil {
			return "", false
		}
		for i := range l {
			v, ok := refText('A', l[i])
			if !ok {
				return "", false
			}
			l[i] = v
		}
		return strings.Join(l, ","), true
	case 'P':
		return pairs('H', 'D')
	case 'Q':
		return pairs('A', 'B')
	}
	var s string
	if len(tok) < 2 || tok[0] != '"' || json.Unmarshal(tok, &s) != nil {
		return "", false
	}
	return refText(f, s)
}

const nEdits = 15

// savEdit changes the text of one field, as somebody with an editor would.
func savEdit(data []byte, f byte, edit int, x uint64) []byte {
	re := regexp.MustCompile(`("` + string(f) + `":\s*[\[{]?\s*)"([^"]*)"`)
	m := re.FindSubmatchIndex(data)
	if m == nil {
		return data
	}
	t := string(data[m[4]:m[5]])
	digits := 0
	if strings.HasPrefix(t, "0x") {
		digits = 2
	}
	at := digits
	if len(t) > digits {
		at += int(x % uint64(len(t)-digits))
	}
	quote := true
	switch edit {
	case 0:
		t = t[:digits] + strings.ToUpper(t[digits:])
	case 1:
		t = strings.Replace(t, "0x", "0X", 1)
	case 2:
		t = t[digits:]
	case 3:
		t = t[:digits] + "0" + t[digits:]
	case 4:
		t = t[:max(digits, len(t)-1)]
	case 5:
		t = t[:at] + []string{"g", "~", "_", "x", ".", " ", "/", ":", "@", "`", "G"}[x>>32%11] + t[min(len(t), at+1):]
	case 6:
		t += "00"
	case 7:
		t, quote = "17", false
	case 8:
		t, quote = "true", false
	case 9:
		t = t[:digits] + "1" + strings.Repeat("0", 64) + t[digits:]
	case 10:
		t = "-" + t
	case 11:
		t += " "
	case 12:
		t = " " + t
	case 13:
		if len(t) > digits {
			t = t[:digits] + "1" + t[digits:]
		}
	case 14:
		t = ""
	}
	if f == 'P' || f == 'Q' { // it is a key
		quote = true
	}
	if quote {
		t = `"` + t + `"`
	}
	return append(append(append([]byte(nil), data[:m[3]]...), t...), data[m[1]:]...)
}

func savGen(g *kit.Gen) {
	incs := g.Range(1, 3)
	g.Set("incs", int64(incs))
	n := g.Range(1, 2)
	g.Set("loaders", int64(n))
	g.Set("lat", g.Pick(0, 0, 1, 2, 3))
	if g.P(1, 2) {
		g.Set("eintr", g.Pick(0, 100, 400))
		g.Set("short", g.Pick(0, 200, 600))
	}
	if g.P(1, 4) {
		g.Set("eio", g.Pick(0, 50, 300))
		g.Set("openerr", g.Pick(0, 50, 300))
	}
	inPlace := g.P(1, 3)
	base := int64(g.U64() % (1 << 40))
	v := base
	for i := 0; i < incs; i++ {
		st := func() int64 {
			if g.P(1, 3) {
				return int64(g.N(25))
			}
			return 0
		}
		for k := g.N(3); k > 0 || i == 0 && k == 0; k-- {
			how := g.Pick(1, 1, 1, 1, 2)
			if inPlace && g.P(1, 2) {
				how = 0
			}
			e := how | int64(g.N(2))<<2
			if g.P(1, 2) {
				e |= int64(1+g.N(len(savFields)))<<3 | int64(g.N(nEdits))<<8
			}
			g.Op(i*10, "save", v, st(), e)
			v++
		}
		for c := 1; c <= n; c++ {
			for k := g.Range(1, 2); k > 0; k-- {
				g.Op(i*10+c, "load", base+1000+int64(g.N(50)), st())
			}
		}
		if g.P(1, 2) {
			for c := g.Range(4, 5); c >= 4; c-- {
				for k := g.Range(1, 2); k > 0; k-- {
					g.Op(i*10+c, "show", base+int64(g.N(3)), st(), int64(g.N(4)))
				}
			}
		}
		if g.P(1, 2) {
			g.Op(i*10+9, "crash", 0, int64(g.N(60)))
		}
	}
	g.Set("last", base+2000)
	g.Set("base", base)
	g.Set("nver", v-base)
}

type savRun struct {
	vals  []*saved
	plain []plain
	bad   string // what was saved does not stand for the values
}

// canonical is the form in which a field stands in the file.
func canonical(f byte, p string) string {
	switch f {
	case 'H', 'A', 'D':
		return `"0x` + p + `"`
	case 'U', 'V', 'M', 'Y':
		return `"` + p + `"`
	}
	v, _ := new(big.Int).SetString(p, 10)
	return `"0x` + v.Text(16) + `"`
}

func (x *savRun) save(r *kit.Run, o kit.Op) {
	i := o.A - r.P("base")
	s, p := x.vals[i], x.plain[i]
	var data []byte
	var err error
	if o.N>>2&1 == 1 {
		data, err = json.MarshalIndent(s, "", "  ")
	} else {
		data, err = json.Marshal(s)
	}
	if err != nil {
		r.Violate("save", "version %d cannot be saved: %v", i, err)
		return
	}
	var toks map[string]json.RawMessage
	if err := json.Unmarshal(data, &toks); err != nil {
		r.Violate("save", "version %d was saved as malformed JSON: %v", i, err)
		return
	}
	for _, f := range []byte(savFields) {
		if got, ok := refField(f, toks[string(f)]); !ok || got != p[f] {
			r.Violate("save", "field %c, value %s, was saved as %s", f, p[f], toks[string(f)])
			return
		}
		if f != 'L' && f != 'P' && f != 'Q' {
			if want := canonical(f, p[f]); string(toks[string(f)]) != want {
				r.Violate("save", "field %c was saved as %s instead of %s", f, toks[string(f)], want)
				return
			}
		}
	}
	if f := o.N >> 3 & 31; f > 0 {
		data = savEdit(data, savFields[f-1], int(o.N>>8), kit.Mix(uint64(o.A)+uint64(o.N)))
	}
	switch o.N & 3 {
	case 0:
		os.WriteFile(cfgPath, data, 0o644)
	case 1:
		tmp := fmt.Sprintf("%s.%d", cfgPath, o.A)
		if os.WriteFile(tmp, data, 0o644) == nil {
			os.Rename(tmp, cfgPath)
		}
	case 2:
		os.Remove(cfgPath)
	}
}

// show uses the values as loggers, encoders and other users do: the texts
// of them all, which must not change once handed out, and the values of the
// texts, which must not change with the buffer they were read from.
func (x *savRun) show(r *kit.Run, o kit.Op) {
	i := (o.A - r.P("base")) % int64(len(x.vals))
	s, p := x.vals[i], x.plain[i]
	kit.Hit(prSavShown)
	type text struct {
		f byte
		b []byte
		s string
	}
	var l []text
	str := func(f byte, got string) { l = append(l, text{f, nil, got}) }
	mar := func(f byte, m encoding.TextMarshaler) {
		b, err := m.MarshalText()
		if err != nil {
			r.Violate("show", "field %c, value %s, has no text: %v", f, p[f], err)
		}
		l = append(l, text{f, b, ""})
	}
	if o.N&1 == 0 {
		str('H', s.H.String())
		str('H', s.H.Hex())
		str('A', s.A.String())
		str('D', s.D.String())
		str('B', s.B.String())
		str('N', s.N.String())
		str('K', s.K.String())
		str('Y', s.Y.String())
		str('H', fmt.Sprint(s.H))
		str('A', fmt.Sprintf("%v", s.A))
		if s.B.ToInt().String() != p['B'] {
			r.Violate("show", "field B is %s instead of %s", s.B.ToInt(), p['B'])
		}
	}
	mar('H', s.H)
	mar('U', s.U)
	mar('A', s.A)
	mar('V', s.V)
	mar('D', s.D)
	mar('B', s.B)
	mar('N', s.N)
	mar('K', s.K)
	mar('X', s.X)
	mar('Y', s.Y)
	if b, err := s.M.MarshalJSON(); err == nil && len(b) > 2 {
		l = append(l, text{'M', b[1 : len(b)-1], ""})
	}
	type tok struct {
		f byte
		b []byte
	}
	var toks []tok
	if o.N&2 != 0 {
		for f, v := range map[byte]json.Marshaler{'M': s.M} {
			b, err := v.MarshalJSON()
			if err != nil {
				r.Violate("show", "field %c, value %s, has no JSON: %v", f, p[f], err)
			}
			toks = append(toks, tok{f, b})
		}
		for _, f := range []byte("HADBNK") {
			toks = append(toks, tok{f, []byte(canonical(f, p[f]))})
		}
	}
	stall(o.B)
	t := &saved{}
	for _, y := range toks {
		t.B, t.M = new(hexutil.Big), new(common.MixedcaseAddress)
		u := map[byte]json.Unmarshaler{'H': &t.H, 'A': &t.A, 'D': &t.D, 'B': t.B, 'N': &t.N, 'K': &t.K, 'M': t.M}[y.f]
		if err := u.UnmarshalJSON(y.b); err != nil {
			r.Violate("show", "the JSON %s of field %c is refused: %v", y.b, y.f, err)
		}
		for j := range y.b {
			y.b[j] = '7'
		}
		for _, bad := range []string{"", `"`, `'0x00'`, "17", "0x11", `0x11"`, `"0x11`, "null", "{}", `"0x`, `"zz"`, `"0x1g"`} {
			if err := u.UnmarshalJSON([]byte(bad)); err == nil {
				r.Violate("show", "field %c accepts the JSON %s", y.f, bad)
			}
		}
		if got := savPlain(t)[y.f]; got != p[y.f] {
			r.Violate("show", "field %c, value %s, is %s when read back from its JSON", y.f, p[y.f], got)
		}
	}
	t = &saved{}
	for _, y := range l {
		got := y.s
		if y.b != nil {
			got = string(y.b)
			var u encoding.TextUnmarshaler
			switch y.f {
			case 'H':
				u = &t.H
			case 'U':
				u = &t.U
			case 'A':
				u = &t.A
			case 'V':
				u = &t.V
			case 'D':
				u = &t.D
			case 'B':
				t.B = new(hexutil.Big)
				u = t.B
			case 'N':
				u = &t.N
			case 'K':
				u = &t.K
			case 'X':
				t.X = new(math.HexOrDecimal256)
				u = t.X
			case 'Y':
				t.Y = new(math.Decimal256)
				u = t.Y
			}
			if u != nil {
				if err := u.UnmarshalText(y.b); err != nil {
					r.Violate("show", "the text %q of field %c is refused: %v", y.b, y.f, err)
				}
				for j := range y.b {
					y.b[j] = '7'
				}
			}
		}
		if v, ok := refText(y.f, got); !ok || v != p[y.f] {
			r.Violate("show", "field %c, value %s, is shown as %q", y.f, p[y.f], got)
		}
	}
	t.M = s.M
	got := savPlain(t)
	for _, f := range []byte("HUAVDBNKXY") {
		if got[f] != p[f] {
			r.Violate("show", "field %c, value %s, is %s when read back from its text", f, p[f], got[f])
		}
	}
}

func savExec(r *kit.Run) {
	kit.DiskTrack(cfgPath)
	x := &savRun{}
	for i := int64(0); i < max(r.P("nver"), 1); i++ {
		s, p := savMake(r.P("base") + i)
		x.vals, x.plain = append(x.vals, s), append(x.plain, p)
	}
	type sload struct {
		load
		s *saved
		p plain
	}
	var all []*sload
	mk := func(o kit.Op, inc int) *sload {
		s, p := savMake(o.A)
		s.L, s.P, s.Q = nil, nil, nil
		p['L'], p['P'], p['Q'] = "", "", ""
		l := &sload{load: load{op: o, inc: inc}, s: s, p: p}
		l.val = s
		all = append(all, l)
		return l
	}
	run := func(inc int, l []*sload) {
		r.Go("loader", func() {
			defer kit.Publish()
			kit.DiskJoin(inc)
			for _, y := range l {
				stall(y.op.B)
				y.begin()
				old := y.s.D // what was read before, in somebody else's hands
				y.err = common.LoadJSON(cfgPath, y.s)
				y.end()
				if hex.EncodeToString(old) != y.p['D'] {
					r.Violate("load", "loading changed the bytes %s, read before, to %x", y.p['D'], old)
				}
			}
		})
	}
	incs := int(r.P("incs"))
	for inc := 0; inc < incs; inc++ {
		if inc > 0 && kit.DiskProc() < inc {
			cfgCrash(inc - 1)
		}
		kit.DiskSetFaults(cfgFaults(r))
		for j, k := range []string{"save", "show", "show"} {
			ops := r.Ops(inc*10 + []int{0, 4, 5}[j])
			r.Go(k, func() {
				defer kit.Publish()
				kit.DiskJoin(inc)
				for _, o := range ops {
					stall(o.B)
					if k == "save" {
						x.save(r, o)
					} else {
						x.show(r, o)
					}
				}
			})
		}
		for c := 1; c <= int(r.P("loaders")); c++ {
			var l []*sload
			for _, o := range r.Ops(inc*10 + c) {
				l = append(l, mk(o, inc))
			}
			run(inc, l)
		}
		for _, o := range r.Ops(inc*10 + 9) {
			r.Go("crash", func() {
				stall(o.B)
				cfgCrash(inc)
				kit.Publish()
			})
		}
		if !r.Drain() || !r.MustEnd("saving and loading") {
			return
		}
	}
	cfgCrash(incs - 1)
	kit.DiskSetFaults(kit.DiskFaults{})
	run(incs, []*sload{mk(kit.Op{K: "load", A: r.P("last")}, incs)})
	if !r.Drain() || !r.MustEnd("loading") {
		return
	}
	states, hard := kit.DiskStates()
	for _, y := range all {
		if y.dead {
			continue
		}
		var seen []kit.DiskState
		mixed, faulty := false, false
		for i, s := range states {
			switch {
			case s.Seq < y.inv:
				seen = states[i : i+1]
			case s.Seq < y.ret:
				seen = append(seen[:len(seen):len(seen)], s)
				mixed = mixed || s.InPlace
			}
		}
		for _, h := range hard {
			faulty = faulty || h > y.inv && h < y.ret
		}
		if mixed {
			kit.Hit(prMixed)
			continue
		}
		var why []string
		for _, s := range seen {
			if w := savExplain(&y.load, y.s, y.p, s, faulty); w != "" {
				why = append(why, w)
			} else {
				why = nil
				break
			}
		}
		if why != nil {
			r.Violate("load", "loading the values (disk faults %v) returned %v; %s", faulty, y.err, strings.Join(why, "; or "))
			return
		}
	}
}

func savDiff(got, want plain) string {
	for _, f := range []byte(savFields) {
		if got[f] != want[f] {
			return fmt.Sprintf("field %c is %q instead of %q", f, got[f], want[f])
		}
	}
	return ""
}

func savExplain(y *load, s *saved, before plain, st kit.DiskState, faulty bool) string {
	got := savPlain(s)
	if faulty && y.err != nil && savDiff(got, before) == "" {
		kit.Hit(prUnread)
		return ""
	}
	if !st.Exists {
		if !errors.Is(y.err, fs.ErrNotExist) {
			return "the file does not exist"
		}
		return savDiff(got, before)
	}
	var toks map[string]json.RawMessage
	if json.Unmarshal(st.Data, &toks) != nil {
		if y.err == nil {
			return fmt.Sprintf("the file is malformed: %.200q", st.Data)
		}
		kit.Hit(prSavTorn)
		return savDiff(got, before)
	}
	want, bad := plain{}, byte(0)
	for _, f := range []byte(savFields) {
		v, ok := refField(f, toks[string(f)])
		if !ok {
			bad, v = f, before[f]
		}
		want[f] = v
	}
	if bad == 0 {
		if y.err != nil {
			return fmt.Sprintf("the file is sound: %s", st.Data)
		}
		kit.Hit(prSavLoaded)
		if y.inc > 0 {
			kit.Hit(prSavNext)
		}
		if bytes.Contains(st.Data, []byte("0X")) {
			kit.Hit(prSavEdited)
		}
		return savDiff(got, want)
	}
	if y.err == nil {
		return fmt.Sprintf("field %c of the file is bad: %s", bad, toks[string(bad)])
	}
	kit.Hit(prSavRefused)
	for _, f := range []byte("HUAVMDBNKXY") {
		if got[f] != before[f] && got[f] != want[f] {
			return fmt.Sprintf("field %c is %q; it was %q and is %q in the file", f, got[f], before[f], want[f])
		}
	}
	return ""
}
