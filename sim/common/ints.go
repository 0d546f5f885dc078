//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"flychain/common/math"
	"flychain/zzverifsim/kit"
)

// C29: 256-bit arithmetic on integers that several goroutines share. The
// workload is that of C28 (bytes.go).
func init() {
	kit.Register(&kit.Prop{ID: "C29", Slow: true, Steps: 500, Gen: func(g *kit.Gen) { useGen(g, len(intUses)) },
		Exec: func(r *kit.Run) { useExec(r, intUses) }})
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func mathGlobals(r *kit.Run) {
	if w := new(big.Int).Sub(two256, big.NewInt(1)); math.MaxBig256.Cmp(w) != 0 {
		r.Violate("constant", "MaxBig256 is %v", math.MaxBig256)
	}
	if w := new(big.Int).SetUint64(1<<63 - 1); math.MaxBig63.Cmp(w) != 0 {
		r.Violate("constant", "MaxBig63 is %v", math.MaxBig63)
	}
}

// word is n modulo 2^256, not negative, by repeated halving of nothing else
// than big.Int's Euclidean remainder.
func word(n *big.Int) *big.Int { return new(big.Int).Mod(n, two256) }

// pow is a**b modulo 2^256, from the top bit down.
func pow(a, b *big.Int) *big.Int {
	r := big.NewInt(1)
	for i := b.BitLen() - 1; i >= 0; i-- {
		r = word(r.Mul(r, r))
		if b.Bit(i) == 1 {
			r = word(r.Mul(r, a))
		}
	}
	return r
}

// edge is an integer of up to bits bits, often next to a power of two.
func (r *rnd) edge(bits int) *big.Int {
	if r.n(2) == 0 {
		return r.num(bits / 8 * 8)
	}
	n := new(big.Int).Lsh(big.NewInt(1), uint(r.n(bits+1)))
	n.Add(n, big.NewInt(int64(r.n(3)-1)))
	if n.BitLen() > bits {
		n.Sub(n, big.NewInt(int64(1+r.n(2))))
		if n.BitLen() > bits {
			n.Rsh(n, 1)
		}
	}
	return n
}

var intUses = []func(u *use){
	func(u *use) { // powers
		e := u.rnd.edge([]int{8, 16, 64, 72, 256}[u.rnd.n(5)])
		b := u.rnd.edge(256)
		switch u.rnd.n(3) {
		case 0:
			b = u.n
		case 1:
			e = u.n
		}
		kb, ke := new(big.Int).Set(b), new(big.Int).Set(e)
		p := math.Exp(b, e)
		u.is(fmt.Sprintf("Exp(%v, %v)", kb, ke), p, pow(kb, ke))
		u.is("the base of Exp", b, kb)
		u.is("the exponent of Exp", e, ke)
		u.ownN = append(u.ownN, p)
	},
	func(u *use) {
		a, b := int64(u.rnd.n(300))-150, int64(u.rnd.n(70))
		w := big.NewInt(1)
		for i := int64(0); i < b; i++ {
			w.Mul(w, big.NewInt(a))
		}
		p := math.BigPow(a, b)
		u.is(fmt.Sprintf("BigPow(%d, %d)", a, b), p, w)
		u.ownN = append(u.ownN, p)
	},
	func(u *use) { // the larger and the smaller
		x := u.rnd.edge(300)
		if u.rnd.n(3) == 0 {
			x.Neg(x)
		}
		hi, lo := x, u.n
		if x.Cmp(u.n) < 0 {
			hi, lo = u.n, x
		}
		if u.rnd.n(2) == 0 {
			u.is("BigMax", math.BigMax(x, u.n), hi)
			u.is("BigMin", math.BigMin(x, u.n), lo)
		} else {
			u.is("BigMax", math.BigMax(u.n, x), hi)
			u.is("BigMin", math.BigMin(u.n, x), lo)
		}
		if math.BigMax(x, u.n) != hi && x.Cmp(u.n) != 0 {
			u.is("BigMax", "another integer", "one of its arguments")
		}
	},
	func(u *use) {
		n := u.rnd.edge(300)
		if u.rnd.n(2) == 0 {
			n = u.n
		}
		w := 0
		for w < n.BitLen() && n.Bit(w) == 0 {
			w++
		}
		u.is(fmt.Sprintf("FirstBitSet(%v)", n), math.FirstBitSet(n), w)
	},
	func(u *use) { // padded bytes
		n, l := u.rnd.edge(300), u.size(42)
		if u.rnd.n(2) == 0 {
			n = u.n
		}
		w := n.Bytes()
		if len(w) < l {
			w = fix(w, l)
		}
		k := new(big.Int).Set(n)
		u.is(fmt.Sprintf("PaddedBigBytes(%v, %d)", n, l), u.mine(math.PaddedBigBytes(n, l)), w)
		u.is("the argument of PaddedBigBytes", n, k)
	},
	func(u *use) {
		n, l := u.rnd.edge(300), u.size(42)
		if u.rnd.n(2) == 0 {
			n = u.n
		}
		k := new(big.Int).Set(n)
		if u.rnd.n(4) == 0 && n != u.n {
			n.Neg(n) // the absolute value counts
		}
		room := bytes.Repeat([]byte{0xcc}, l+6)
		for i := 0; i < l; i++ {
			room[3+i] = 0
		}
		w := append(append([]byte{0xcc, 0xcc, 0xcc}, fix(n.Bytes(), l)...), 0xcc, 0xcc, 0xcc)
		math.ReadBits(n, room[3:3+l])
		u.is(fmt.Sprintf("ReadBits(%v) into %d bytes and the bytes around them", n, l), room, w)
		u.is("the argument of ReadBits", new(big.Int).Abs(n), k)
	},
	func(u *use) {
		n := u.rnd.edge(256)
		if u.rnd.n(2) == 0 {
			n = u.n
		}
		pad := []int{32, 32, 8, 1, 33, 64}[u.rnd.n(6)]
		b := fix(n.Bytes(), pad)
		for i := 0; i < 4; i++ {
			at, w := u.rnd.n(pad+4), byte(0)
			if at < pad {
				w = b[at]
			}
			u.is(fmt.Sprintf("Byte(%v, %d, %d)", n, pad, at), math.Byte(n, pad, at), w)
		}
	},
	func(u *use) { // two's complement
		n := u.rnd.edge(300)
		if u.rnd.n(2) == 0 {
			n.Neg(n)
		}
		w := word(n)
		k := new(big.Int).Set(n)
		if got := math.U256(n); got != n {
			u.is("U256", "another integer", "its argument")
		} else {
			u.is(fmt.Sprintf("U256(%v)", k), got, w)
		}
		n = new(big.Int).Set(k)
		u.is(fmt.Sprintf("U256Bytes(%v)", k), u.mine(math.U256Bytes(n)), fix(w.Bytes(), 32))
		s, kw := math.S256(w), new(big.Int).Set(w)
		ws := new(big.Int).Set(w)
		if w.BitLen() == 256 {
			ws.Sub(ws, two256)
		}
		u.is(fmt.Sprintf("S256(%v)", kw), s, ws)
		u.is("the argument of S256", w, kw)
		u.is("S256 and back", math.U256(new(big.Int).Set(s)), kw)
		if u.n.BitLen() <= 256 {
			s := math.S256(u.n)
			if ws := new(big.Int).Set(u.n); u.n.BitLen() == 256 {
				u.is("S256", s, ws.Sub(ws, two256))
			} else {
				u.is("S256", s, ws)
			}
		}
	},
	func(u *use) { // parsing
		n := u.rnd.edge(256)
		s := []string{n.String(), "0x" + recase(u.rnd, n.Text(16)), "0X" + recase(u.rnd, n.Text(16))}[u.rnd.n(3)]
		if u.rnd.n(2) == 0 { // leading zeros
			z := strings.Repeat("0", u.rnd.n(80))
			if s[0] == '0' && len(s) > 1 {
				s = s[:2] + z + s[2:]
			} else {
				s = z + s
			}
		}
		got, ok := math.ParseBig256(s)
		u.is("ParseBig256 "+s, got, n)
		u.is("ParseBig256 "+s, ok, true)
		u.ownN = append(u.ownN, got)
		got, ok = math.ParseBig256("")
		u.is("ParseBig256 of nothing", got, big.NewInt(0))
		u.ownN = append(u.ownN, got)
		u.is("ParseBig256 of nothing", ok, true)
		big256 := new(big.Int).Add(two256, n)
		for _, bad := range []string{"0x", big256.String(), "0x" + big256.Text(16), "x" + s, s + "g", s + " ", " " + s, s + ".0", "0x0x1", s + "_", "0o17", "0b1", "a" + n.String()} {
			if bad == "0b1" || bad == "a"+n.String() && s[0] == '0' && len(s) > 1 {
				continue
			}
			if _, ok := math.ParseBig256(bad); ok {
				u.is("ParseBig256 "+bad, "accepted", "refused")
			}
			kit.Hit(prRefused)
		}
	},
	func(u *use) { // texts
		i := int64(u.rnd.num(62).Uint64())
		h, d := math.NewHexOrDecimal256(i), math.NewDecimal256(i)
		t, err := h.MarshalText()
		u.is("HexOrDecimal256", u.mine(t), []byte(fmt.Sprintf("0x%x", i)))
		u.is("HexOrDecimal256", err, nil)
		t, err = d.MarshalText()
		u.is("Decimal256", u.mine(t), []byte(fmt.Sprint(i)))
		u.is("Decimal256", err, nil)
		u.is("Decimal256", d.String(), fmt.Sprint(i))
		t, _ = (*math.HexOrDecimal256)(nil).MarshalText()
		u.is("the text of no HexOrDecimal256", u.mine(t), []byte("0x0"))
		u.is("the text of no Decimal256", (*math.Decimal256)(nil).String(), "0")
		t, _ = (*math.HexOrDecimal256)(u.n).MarshalText()
		u.is("HexOrDecimal256", u.mine(t), []byte(qty(u.n)))
		u.is("Decimal256", (*math.Decimal256)(u.n).String(), u.n.String())
		// What was read may be changed without changing anything else.
		var x, y math.HexOrDecimal256
		var z math.Decimal256
		b := []byte(qty(u.n))
		if u.n.BitLen() > 256 {
			u.refused("HexOrDecimal256", x.UnmarshalText(b))
			return
		}
		u.is("HexOrDecimal256", x.UnmarshalText(b), nil)
		u.is("HexOrDecimal256", y.UnmarshalText(b), nil)
		u.is("Decimal256", z.UnmarshalText(b), nil)
		(*big.Int)(&x).SetInt64(7)
		u.is("HexOrDecimal256", (*big.Int)(&y), new(big.Int).Set(u.n))
		u.is("Decimal256", (*big.Int)(&z), new(big.Int).Set(u.n))
	},
}
