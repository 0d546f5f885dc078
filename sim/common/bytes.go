//go:build go1.22

package main

import (
	"bytes"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"math/big"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	"flychain/common"
	"flychain/common/hexutil"
	"flychain/zzverifsim/kit"

	"golang.org/x/crypto/sha3"
)

// C28: byte strings, quantities, hashes and addresses that several goroutines
// share, each computing texts, paddings and conversions of them. Results are
// looked at only after a stall, and then overwritten where they are the
// caller's own.
//
//	op "use": A function, B seed of further arguments, N input, stall<<4
//
// C29 (ints.go) has the same workload over integers.
func init() {
	kit.Register(&kit.Prop{ID: "C28", Slow: true, Steps: 500, Gen: func(g *kit.Gen) { useGen(g, len(bytesUses)) },
		Exec: func(r *kit.Run) { useExec(r, bytesUses) }})
}

var (
	prUsed    = kit.Ctr("probe.results_compared")
	prShared  = kit.Ctr("probe.inputs_shared_by_callers")
	prRefused = kit.Ctr("probe.malformed_input_refused")
	faOwn     = kit.Ctr("fault.result_overwritten_by_its_owner")
)

func useGen(g *kit.Gen, n int) {
	c := g.Range(2, 4)
	g.Set("clients", int64(c))
	g.Set("base", int64(g.U64()%(1<<40)))
	g.Set("inputs", int64(g.Range(1, 3)))
	// A few functions at a time, so that they meet themselves.
	var fs []int64
	for k := g.Range(1, 5); k > 0; k-- {
		fs = append(fs, int64(g.N(n)))
	}
	for i := 0; i < c; i++ {
		for k := g.Range(2, 8); k > 0; k-- {
			st := int64(0)
			if g.P(1, 3) {
				st = int64(g.N(20))
			}
			g.Op(i, "use", fs[g.N(len(fs))], int64(g.U64()%(1<<40)), int64(g.N(3))|st<<4)
		}
	}
}

// input is what callers share: bytes, and the same as an integer.
type input struct {
	b    []byte
	n    *big.Int
	keep []byte
}

// use collects the results of one call.
type use struct {
	r    *kit.Run
	rnd  *rnd
	in   *input
	b    []byte
	n    *big.Int
	name string
	res  []result
	own  [][]byte
	ownN []*big.Int
}

type result struct {
	what      string
	got, want any
}

// is notes a result, to be compared later: byte slices and integers are kept
// by reference.
func (u *use) is(what string, got, want any) { u.res = append(u.res, result{what, got, want}) }

// size is a number below n, or sometimes a large one.
func (u *use) size(n int) int {
	if u.rnd.n(30) == 0 {
		return u.rnd.n(1500)
	}
	return u.rnd.n(n)
}

// mine marks a result as the caller's own.
func (u *use) mine(b []byte) []byte { u.own = append(u.own, b); return b }

// apart changes a result for a moment: what it was made of stays as it was.
func apart(u *use, b []byte, of func() any, x string) []byte {
	for i := range b {
		b[i] ^= 0xff
	}
	u.is("value whose bytes were handed out and changed", of(), x)
	for i := range b {
		b[i] ^= 0xff
	}
	return b
}

func (u *use) refused(what string, err error) {
	if err == nil {
		u.is(what, "accepted", "refused")
	}
	kit.Hit(prRefused)
}

func canon(v any) string {
	switch v := v.(type) {
	case []byte:
		return fmt.Sprintf("%x", v)
	case *big.Int:
		if v == nil {
			return "nil"
		}
		return v.String()
	case common.Hash:
		return hex.EncodeToString(v[:])
	case common.Address:
		return hex.EncodeToString(v[:])
	case error:
		return v.Error()
	case nil:
		return "<nil>"
	}
	return fmt.Sprint(v)
}

func useExec(r *kit.Run, fns []func(u *use)) {
	var ins []*input
	for i := int64(0); i < max(r.P("inputs"), 1); i++ {
		x := &rnd{uint64(r.P("base") + i*7919)}
		in := &input{}
		ln := []int{0, 1, 2, 7, 8, 9, 19, 20, 21, 31, 32, 33, 40}[x.n(13)]
		if x.n(30) == 0 {
			ln = []int{64, 65, 100, 255, 256, 257, 1000, 1 + x.n(1200)}[x.n(8)]
		}
		in.b = x.raw(ln)
		// Spare room behind the slice belongs to the caller too.
		in.keep = make([]byte, len(in.b)+8)
		copy(in.keep, in.b)
		for j := len(in.b); j < len(in.keep); j++ {
			in.keep[j] = 0xa5
		}
		full := append([]byte(nil), in.keep...)
		in.b = full[:len(in.b)]
		in.n = new(big.Int).SetBytes(in.b)
		ins = append(ins, in)
	}
	same := func(in *input, who string) {
		if full := in.b[:len(in.keep)]; !bytes.Equal(full, in.keep) {
			r.Violate("input", "%s changed the caller's bytes %x to %x", who, in.keep, full)
		}
		if want := new(big.Int).SetBytes(in.keep[:len(in.b)]); in.n.Cmp(want) != 0 {
			r.Violate("input", "%s changed the caller's integer %v to %v", who, want, in.n)
		}
	}
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		r.Go("user", func() {
			defer kit.Publish()
			var last *use
			check := func() {
				if last == nil {
					return
				}
				for _, x := range last.res {
					if g, w := canon(x.got), canon(x.want); g != w && !r.Bad() {
						r.Violate("result", "%s: %.200s is %.300q instead of %.300q", last.name, x.what, g, w)
					}
				}
				kit.Hit(prUsed)
				for _, b := range last.own {
					b = b[:cap(b)] // the room behind it is the caller's, too
					for i := range b {
						b[i] ^= 0xff
					}
					kit.Hit(faOwn)
				}
				for _, n := range last.ownN {
					n.SetInt64(-77)
				}
				last = nil
			}
			for _, o := range ops {
				in := ins[o.N&15%int64(len(ins))]
				if len(ins) < int(r.P("clients")) {
					kit.Hit(prShared)
				}
				u := &use{r: r, rnd: &rnd{uint64(o.B)}, in: in, b: in.b, n: in.n, name: fmt.Sprintf("function %d", o.A)}
				fns[o.A%int64(len(fns))](u)
				check()
				last = u
				stall(o.N >> 4)
			}
			check()
		})
	}
	if !r.Drain() || !r.MustEnd("computing") {
		return
	}
	for _, in := range ins {
		same(in, "one of the functions used")
	}
	useGlobals(r)
	mathGlobals(r)
}

// useGlobals checks the exported constants.
func useGlobals(r *kit.Run) {
	for _, c := range []struct {
		b *big.Int
		n int64
	}{{common.Big0, 0}, {common.Big1, 1}, {common.Big2, 2}, {common.Big3, 3}, {common.Big32, 32}, {common.Big256, 256}, {common.Big257, 257}} {
		if !c.b.IsInt64() || c.b.Int64() != c.n {
			r.Violate("constant", "a shared constant is %v instead of %d", c.b, c.n)
		}
	}
}

// fix is b made n bytes long: cut or padded on the left.
func fix(b []byte, n int) []byte {
	if len(b) >= n {
		return append([]byte(nil), b[len(b)-n:]...)
	}
	return append(make([]byte, n-len(b)), b...)
}

// refChecksum is the EIP-55 form of an address.
func refChecksum(a []byte) string {
	h := hex.EncodeToString(a)
	k := sha3.NewLegacyKeccak256()
	k.Write([]byte(h))
	d := hex.EncodeToString(k.Sum(nil))
	out := []byte(h)
	for i := range out {
		if d[i] >= '8' && out[i] >= 'a' {
			out[i] = out[i] - 'a' + 'A'
		}
	}
	return "0x" + string(out)
}

func qty(n *big.Int) string { return "0x" + n.Text(16) }

// panics runs f and returns what it panicked with.
func panics(f func()) (v any) {
	defer func() { v = recover() }()
	f()
	return nil
}

var bytesUses = []func(u *use){
	func(u *use) { // hex to bytes and back
		h := hex.EncodeToString(u.b)
		s := []string{"", "0x", "0X"}[u.rnd.n(3)] + recase(u.rnd, h)
		u.is("FromHex "+s, u.mine(common.FromHex(s)), h)
		u.is("Bytes2Hex", common.Bytes2Hex(u.b), h)
		u.is("Hex2Bytes", u.mine(common.Hex2Bytes(recase(u.rnd, h))), h)
		if len(h) > 0 && h[0] == '0' {
			u.is("FromHex of an odd number of digits", common.FromHex("0x"+h[1:]), h)
			u.is("FromHex of an odd number of digits", common.FromHex(h[1:]), h)
		}
	},
	func(u *use) {
		n := u.size(45)
		u.is(fmt.Sprintf("Hex2BytesFixed of %x to %d", u.b, n), u.mine(common.Hex2BytesFixed(hex.EncodeToString(u.b), n)), fix(u.b, n))
	},
	func(u *use) {
		u.is("CopyBytes", u.mine(common.CopyBytes(u.b)), append([]byte(nil), u.b...))
		if common.CopyBytes(nil) != nil {
			u.is("CopyBytes(nil)", "a slice", "nil")
		}
		if common.CopyBytes([]byte{}) == nil {
			u.is("CopyBytes of no bytes", "nil", "a slice")
		}
	},
	func(u *use) {
		n := u.size(48)
		l, r := common.LeftPadBytes(u.b, n), common.RightPadBytes(u.b, n)
		wl, wr := append([]byte(nil), u.b...), append([]byte(nil), u.b...)
		if n > len(u.b) {
			wl, wr = fix(u.b, n), append(wr, make([]byte, n-len(u.b))...)
			u.mine(l)
			u.mine(r)
		}
		u.is(fmt.Sprintf("LeftPadBytes of %x to %d", u.b, n), l, wl)
		u.is(fmt.Sprintf("RightPadBytes of %x to %d", u.b, n), r, wr)
	},
	func(u *use) {
		h := hex.EncodeToString(u.b)
		l, r := h, h
		for strings.HasPrefix(l, "00") {
			l = l[2:]
		}
		for strings.HasSuffix(r, "00") {
			r = r[:len(r)-2]
		}
		u.is("TrimLeftZeroes of "+h, common.TrimLeftZeroes(u.b), l)
		u.is("TrimRightZeroes of "+h, common.TrimRightZeroes(u.b), r)
	},
	func(u *use) {
		h := hex.EncodeToString(u.b)
		b, err := common.ParseHexOrString("0x" + h)
		u.is("ParseHexOrString of hex", b, h)
		u.is("ParseHexOrString of hex", err, nil)
		s := "z" + h
		b, err = common.ParseHexOrString(s)
		u.is("ParseHexOrString of text", b, []byte(s))
		u.is("ParseHexOrString of text", err, nil)
		_, err = common.ParseHexOrString("0x" + h + "f")
		u.refused("odd hex", err)
		_, err = common.ParseHexOrString("0xz" + h + "0")
		u.refused("bad hex", err)
	},
	func(u *use) { // byte strings
		h := "0x" + hex.EncodeToString(u.b)
		u.is("Encode", hexutil.Encode(u.b), h)
		s := recase(u.rnd, h)
		if u.rnd.n(2) == 0 {
			s = "0X" + s[2:]
		}
		b, err := hexutil.Decode(s)
		u.is("Decode "+s, u.mine(b), u.b)
		u.is("Decode "+s, err, nil)
		u.is("MustDecode "+s, u.mine(hexutil.MustDecode(s)), u.b)
		for _, bad := range []string{"", s[2:] + "g", s + "0", s + "0g", s + "g0", "1x" + s[2:], "0" + s[2:], s + " 0", "x" + s[1:]} {
			_, err := hexutil.Decode(bad)
			u.refused("Decode "+bad, err)
			if p := panics(func() { hexutil.MustDecode(bad) }); p == nil {
				u.is("MustDecode "+bad, "accepted", "panic")
			}
		}
	},
	func(u *use) { // 64-bit quantities
		v := u.rnd.num(64).Uint64()
		if u.rnd.n(8) == 0 {
			v = ^uint64(0) >> u.rnd.n(64)
		}
		w := "0x" + strconv.FormatUint(v, 16)
		u.is("EncodeUint64", hexutil.EncodeUint64(v), w)
		s := recase(u.rnd, w)
		d, err := hexutil.DecodeUint64(s)
		u.is("DecodeUint64 "+s, d, v)
		u.is("DecodeUint64 "+s, err, nil)
		u.is("MustDecodeUint64 "+s, hexutil.MustDecodeUint64(s), v)
		for _, bad := range []string{"", "0x", w[2:], "0x0" + w[2:], "0x1" + fmt.Sprintf("%016x", v), w + "g", "-" + w, w + "_1", "0x+" + w[2:], w + " "} {
			if strings.HasPrefix(bad, "0x") && bad == w {
				continue
			}
			_, err := hexutil.DecodeUint64(bad)
			u.refused("DecodeUint64 "+bad, err)
			if p := panics(func() { hexutil.MustDecodeUint64(bad) }); p == nil {
				u.is("MustDecodeUint64 "+bad, "accepted", "panic")
			}
		}
	},
	func(u *use) { // 256-bit quantities
		v := u.rnd.num(256)
		if u.rnd.n(2) == 0 && u.n.BitLen() <= 256 {
			v = u.n
		}
		w := qty(v)
		u.is("EncodeBig", hexutil.EncodeBig(v), w)
		neg := "-" + w
		if v.Sign() == 0 {
			neg = w
		}
		u.is("EncodeBig of a negative", hexutil.EncodeBig(new(big.Int).Neg(v)), neg)
		s := recase(u.rnd, w)
		d, err := hexutil.DecodeBig(s)
		u.is("DecodeBig "+s, d, w2n(w))
		u.is("DecodeBig "+s, err, nil)
		u.ownN = append(u.ownN, d)
		d = hexutil.MustDecodeBig(s)
		u.is("MustDecodeBig "+s, d, w2n(w))
		u.ownN = append(u.ownN, d)
		for _, bad := range []string{"", "0x", w[2:] + "g", "0x0" + w[2:], "0x1" + fmt.Sprintf("%064x", v), w + "g", "-" + w, w + "_1", w[:2] + "-" + w[2:], w + " "} {
			_, err := hexutil.DecodeBig(bad)
			u.refused("DecodeBig "+bad, err)
			if p := panics(func() { hexutil.MustDecodeBig(bad) }); p == nil {
				u.is("MustDecodeBig "+bad, "accepted", "panic")
			}
		}
	},
	func(u *use) { // hashes
		h := common.BytesToHash(u.b)
		want := fix(u.b, 32)
		x := hex.EncodeToString(want)
		u.is("BytesToHash", h, x)
		u.is("BigToHash", common.BigToHash(u.n), x)
		u.is("HexToHash", common.HexToHash(recase(u.rnd, "0x"+hex.EncodeToString(u.b))), x)
		var k common.Hash
		k.SetBytes(u.b)
		u.is("SetBytes", k, x)
		u.is("Bytes", u.mine(apart(u, h.Bytes(), func() any { return h }, x)), x)
		n := h.Big()
		u.is("Big", n, new(big.Int).SetBytes(want))
		u.ownN = append(u.ownN, n)
		u.is("Hex", h.Hex(), "0x"+x)
		u.is("String", h.String(), "0x"+x)
		u.is("TerminalString", h.TerminalString(), x[:6]+".."+x[58:])
	},
	func(u *use) {
		formats(u, common.BytesToHash(u.b), fix(u.b, 32), "hash", "0x"+hex.EncodeToString(fix(u.b, 32)))
	},
	func(u *use) {
		formats(u, common.BytesToAddress(u.b), fix(u.b, 20), "address", refChecksum(fix(u.b, 20)))
	},
	func(u *use) { // addresses
		a := common.BytesToAddress(u.b)
		want := fix(u.b, 20)
		x := hex.EncodeToString(want)
		u.is("BytesToAddress", a, x)
		u.is("BigToAddress", common.BigToAddress(u.n), x)
		u.is("HexToAddress", common.HexToAddress(recase(u.rnd, "0x"+hex.EncodeToString(u.b))), x)
		var k common.Address
		k.SetBytes(u.b)
		u.is("SetBytes", k, x)
		u.is("Bytes", u.mine(apart(u, a.Bytes(), func() any { return a }, x)), x)
		u.is("Hash", a.Hash(), strings.Repeat("0", 24)+x)
		n := a.Big()
		u.is("Big", n, new(big.Int).SetBytes(want))
		u.ownN = append(u.ownN, n)
		u.is("Hex", a.Hex(), refChecksum(want))
		u.is("String", a.String(), refChecksum(want))
	},
	func(u *use) { // mixed case
		want := fix(u.b, 20)
		x := hex.EncodeToString(want)
		sum := refChecksum(want)
		s := []string{sum, recase(u.rnd, "0x"+x), recase(u.rnd, "0X"+x), recase(u.rnd, x), sum[2:]}[u.rnd.n(5)]
		u.is("IsHexAddress "+s, common.IsHexAddress(s), true)
		m, err := common.NewMixedcaseAddressFromString(s)
		if err != nil {
			u.is("NewMixedcaseAddressFromString "+s, err, nil)
			return
		}
		u.is("Address of "+s, m.Address(), x)
		u.is("Original of "+s, m.Original(), s)
		u.is("ValidChecksum of "+s, m.ValidChecksum(), s == sum)
		if s == sum {
			u.is("String of "+s, m.String(), s+" [chksum ok]")
		} else {
			u.is("String of "+s, m.String(), s+" [chksum INVALID]")
		}
		m2 := common.NewMixedcaseAddress(common.BytesToAddress(u.b))
		u.is("Original", m2.Original(), sum)
		u.is("ValidChecksum", m2.ValidChecksum(), true)
		p := u.rnd.n(40)
		for _, bad := range []string{s[:len(s)-1], s + "0", s + "00", "0x" + x[:p] + "g" + x[p+1:], "0y" + x, "", "0x", "0x0x" + x[4:]} {
			u.is("IsHexAddress "+bad, common.IsHexAddress(bad), false)
			_, err := common.NewMixedcaseAddressFromString(bad)
			u.refused("NewMixedcaseAddressFromString "+bad, err)
		}
	},
	func(u *use) { // databases
		before := common.BytesToHash(u.rnd.raw(32))
		h, b := before, u.rnd.raw(u.rnd.n(2)*32+u.rnd.n(2)*20)
		err := h.Scan(b)
		w := before
		if len(b) == 32 {
			u.is("Hash.Scan", err, nil)
			w = common.Hash(b)
		} else {
			u.refused("Hash.Scan", err)
		}
		a0 := common.BytesToAddress(u.rnd.raw(20))
		a, wa := a0, a0
		err = a.Scan(b)
		if len(b) == 20 {
			u.is("Address.Scan", err, nil)
			wa = common.Address(b)
		} else {
			u.refused("Address.Scan", err)
		}
		u.refused("Hash.Scan of text", h.Scan(string(b)))
		u.refused("Address.Scan of text", a.Scan(string(b)))
		for i := range b {
			b[i] ^= 0x55
		}
		u.is("Hash.Scan", h, w)
		u.is("Address.Scan", a, wa)
		for _, x := range []struct {
			v any
			w []byte
		}{{h, w[:]}, {a, wa[:]}} {
			dv, ok := x.v.(driver.Valuer)
			if !ok {
				u.is("Value", "missing", "there")
				continue
			}
			v, err := dv.Value()
			u.is("Value", err, nil)
			b, ok := v.([]byte)
			if u.is("Value", b, x.w); ok {
				u.mine(b)
			}
		}
	},
	func(u *use) { // GraphQL
		u.is("types", fmt.Sprint(common.Hash{}.ImplementsGraphQLType("Bytes32"), common.Hash{}.ImplementsGraphQLType("Address"), common.Address{}.ImplementsGraphQLType("Address"), common.Address{}.ImplementsGraphQLType("Bytes32"),
			hexutil.Bytes{}.ImplementsGraphQLType("Bytes"), hexutil.Bytes{}.ImplementsGraphQLType("Bytes32"), hexutil.Big{}.ImplementsGraphQLType("BigInt"), hexutil.Uint64(0).ImplementsGraphQLType("Long"), hexutil.Uint64(0).ImplementsGraphQLType("BigInt")), "true false true false true false true true false")
		x := hex.EncodeToString(u.b)
		i := int32(u.rnd.n(1 << 31))
		q := u.rnd.num(64)
		var h common.Hash
		var a common.Address
		var b hexutil.Bytes
		var n hexutil.Big
		var l hexutil.Uint64
		err := h.UnmarshalGraphQL("0x" + x)
		if len(u.b) == 32 {
			u.is("Hash", err, nil)
			u.is("Hash", h, x)
		} else {
			u.refused("Hash from "+x, err)
			u.is("Hash", h, common.Hash{})
		}
		err = a.UnmarshalGraphQL("0x" + x)
		if len(u.b) == 20 {
			u.is("Address", err, nil)
			u.is("Address", a, x)
		} else {
			u.refused("Address from "+x, err)
			u.is("Address", a, common.Address{})
		}
		u.is("Bytes", b.UnmarshalGraphQL("0x"+x), nil)
		u.is("Bytes", []byte(b), x)
		u.refused("Bytes from "+x, b.UnmarshalGraphQL("0x1"+x))
		u.is("Bytes", []byte(b), x)
		if u.rnd.n(2) == 0 {
			u.is("Big", n.UnmarshalGraphQL(qty(q)), nil)
			u.is("Uint64", l.UnmarshalGraphQL(qty(q)), nil)
		} else {
			u.is("Big", n.UnmarshalGraphQL(i), nil)
			u.is("Uint64", l.UnmarshalGraphQL(i), nil)
			q = big.NewInt(int64(i))
		}
		for _, e := range []any{"0x" + qty(q), "0x0" + q.Text(16), 1.5, nil} {
			u.refused("Big", n.UnmarshalGraphQL(e))
			u.refused("Uint64", l.UnmarshalGraphQL(e))
		}
		for _, e := range []any{i, 1.5, nil, "0xz"} {
			u.refused("Hash", h.UnmarshalGraphQL(e))
			u.refused("Address", a.UnmarshalGraphQL(e))
			u.refused("Bytes", b.UnmarshalGraphQL(e))
		}
		u.is("Big", n.ToInt(), new(big.Int).Set(q))
		u.is("Uint64", uint64(l), q.Uint64())
	},
	func(u *use) { // sizes and durations
		v := u.rnd.num(50)
		v.Rsh(v, uint(u.rnd.n(50)))
		k := uint(u.rnd.n(6)) * 10
		if u.rnd.n(3) == 0 {
			v = new(big.Int).Lsh(big.NewInt(int64(1+u.rnd.n(3))), k)
			v.Add(v, big.NewInt(int64(u.rnd.n(3)-1)))
		}
		f := float64(v.Uint64())
		unit, div := "B", 1.0
		for i, n := range []string{"KiB", "MiB", "GiB", "TiB"} {
			if d := float64(uint64(1) << (10 * (i + 1))); f > d {
				unit, div = n, d
			}
		}
		u.is("StorageSize", common.StorageSize(f).String(), fmt.Sprintf("%.2f %s", f/div, unit))
		u.is("StorageSize", common.StorageSize(f).TerminalString(), fmt.Sprintf("%.2f%s", f/div, unit))
		d := time.Duration(u.rnd.num(56).Int64())
		d /= time.Duration([]int{1, 1e3, 1e6, 1e9}[u.rnd.n(4)])
		if u.rnd.n(3) == 0 {
			d -= d % time.Duration([]int{10, 1e3, 1e5, 1e9}[u.rnd.n(4)])
		}
		w := d.String()
		if i := strings.IndexByte(w, '.'); i >= 0 {
			j := i + 1
			for j < len(w) && w[j] >= '0' && w[j] <= '9' {
				j++
			}
			w = w[:min(i+4, j)] + w[j:]
		}
		u.is("PrettyDuration of "+d.String(), common.PrettyDuration(d).String(), w)
	},
	func(u *use) { // names and paths
		p := hex.EncodeToString(u.b)
		u.is("MakeName", common.MakeName("n"+p, "1.2"), "n"+p+"/v1.2/"+runtime.GOOS+"/"+runtime.Version())
		u.is("AbsolutePath", common.AbsolutePath("/data", p), filepath.Join("/data", p))
		u.is("AbsolutePath", common.AbsolutePath("/data", "/"+p), "/"+p)
		u.is("AbsolutePath", common.AbsolutePath("data/x", "../"+p), filepath.Join("data", p))
	},
}

func w2n(w string) *big.Int {
	n, ok := new(big.Int).SetString(w[2:], 16)
	if !ok {
		panic(w)
	}
	return n
}

// formats is every format of a fixed-size value.
func formats(u *use, v fmt.Formatter, b []byte, kind, text string) {
	x := hex.EncodeToString(b)
	X := strings.ToUpper(x)
	verb := []string{"t", "b", "c", "o", "U", "e", "y", "Z"}[u.rnd.n(8)]
	for _, f := range [][2]string{
		{"%v", text}, {"%s", text}, {"%q", `"` + text + `"`}, {"%x", x}, {"%#x", "0x" + x}, {"%X", X}, {"%#X", "0X" + X},
		{"%d", strings.ReplaceAll(fmt.Sprint(b), ",", "")}, {"%" + verb, "%!" + verb + "(" + kind + "=" + x + ")"},
	} {
		u.is(f[0], fmt.Sprintf(f[0], v), f[1])
	}
	u.is("Sprint", fmt.Sprint(v), text)
}
