//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	"flychain/crypto"
	"flychain/zzverifsim/kit"
)

// C21: key generation from an unreliable entropy source, by concurrent callers
// sharing curves and source. C22: first use of the curves by concurrent
// callers; every run is a fresh process.
//
//	op "key": A curve, B stall, N: 1 derive a shared secret too, 2 encode,
//	4 derive one with the caller's previous key, 8 go on using what was
//	returned as the caller's own; bits 4 and 5 choose the peer's scalar
//	op "curve": A curve, B stall
func init() {
	kit.Register(&kit.Prop{ID: "C21", Slow: true, Steps: 20000, StepCap: 3000000, Gen: keyGen, Exec: keyExec})
	kit.Register(&kit.Prop{ID: "C22", Steps: 200, Once: true, Gen: curveGen, Exec: curveExec})
}

var (
	prKeys      = kit.Ctr("probe.key_generated")
	prKeyErr    = kit.Ctr("probe.key_generation_failed")
	prRetried   = kit.Ctr("probe.key_drawn_again")
	prAgree     = kit.Ctr("probe.shared_secret_agreed")
	prBothSides = kit.Ctr("probe.secret_derived_by_both_sides")
	prOwned     = kit.Ctr("probe.returned_key_overwritten_by_its_owner")
	prMisread   = kit.Ctr("probe.malformed_encoding_refused")
	prPtSums    = kit.Ctr("probe.points_added")
	prPtDoubles = kit.Ctr("probe.points_doubled")
	prFirst     = kit.Ctr("probe.concurrent_first_use")
)

var peerScalars = [][]byte{{3}, {0, 0, 5}, {1}, {0x01, 0xff, 0x07}}

func keyGen(g *kit.Gen) {
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	g.Set("curve", int64(g.N(4)))
	genFaults(g)
	g.Set("scripts", int64(g.N(4)))
	g.Set("scriptseed", int64(g.N(1000)))
	for c := 0; c < n; c++ {
		for k := g.Range(1, 2); k > 0; k-- {
			cv := g.Plan.P["curve"]
			if g.P(1, 6) {
				cv = int64(g.N(4))
			}
			g.Op(c, "key", cv, int64(g.N(4)), g.Pick(0, 0, 1, 2, 3)|g.Pick(0, 0, 0, 4, 8)|int64(g.N(4))<<4)
		}
	}
}

func curveOf(i int64) *crypto.BitCurve {
	switch i {
	case 0:
		return crypto.S160()
	case 1:
		return crypto.S192()
	case 2:
		return crypto.S224()
	}
	return crypto.S256()
}

// scripted returns a block that makes the key one at which the arithmetic is
// special.
func scripted(c *ref, k int) []byte {
	L := (c.bits + 7) / 8
	var v *big.Int
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(c.bits)), big.NewInt(1))
	switch k % 10 {
	case 0, 1, 2:
		v = big.NewInt(0)
	case 3:
		v = new(big.Int).Set(c.n)
	case 4:
		v = new(big.Int).Add(c.n, big.NewInt(2))
	case 5:
		v = new(big.Int).Sub(c.n, big.NewInt(1))
	case 6:
		v = new(big.Int).Add(c.n, big.NewInt(1))
	case 7:
		v = big.NewInt(1)
	case 8:
		v = max
	default:
		v = new(big.Int).Rsh(new(big.Int).Add(c.n, big.NewInt(1)), 1)
	}
	if v.Cmp(max) > 0 {
		v = big.NewInt(0)
	}
	b := make([]byte, L)
	v.FillBytes(b)
	b[1] ^= 0x42
	return b
}

type keyRes struct {
	op   kit.Op
	c    *ecall
	priv []byte
	x, y *big.Int
	err  error
	sx   *big.Int
	sy   *big.Int
	enc  []byte
	dx   *big.Int
	dy   *big.Int
	bad  string
	done bool
	sums []sum
}

// sum is the result of adding another key's point, or of doubling.
type sum struct {
	other *keyRes // nil: doubled
	x, y  *big.Int
}

// misread feeds the decoder what is not an encoding of a point: another
// first byte, bytes missing at the end or the front, or bytes too many.
func misread(cv *crypto.BitCurve, enc []byte, h uint64) string {
	if len(enc) == 0 {
		return ""
	}
	h = kit.Mix(h + 0x6d69 + uint64(enc[len(enc)-1])<<8)
	e := bytes.Clone(enc)
	kind := ""
	switch h % 6 {
	case 0:
		e[0] ^= byte(1 + h>>8%255)
		kind = "with another first byte"
	case 1:
		e = e[:len(e)-1-int(h>>8%uint64(len(e)))]
		kind = "cut off"
	case 2:
		e = append(e, make([]byte, 1+h>>8%40)...)
		kind = "followed by more"
	case 3:
		e = e[1:]
		kind = "without its first byte"
	case 4:
		e = append(e, e...)
		kind = "repeated"
	default:
		e = nil
		kind = "emptied"
	}
	kit.Hit(prMisread)
	if x, _ := cv.Unmarshal(e); x != nil {
		return fmt.Sprintf("an encoding %s (%d bytes for %d, first byte %x) was decoded all the same", kind, len(e), len(enc), first(e))
	}
	return ""
}

func first(b []byte) []byte {
	if len(b) > 1 {
		b = b[:1]
	}
	return b
}

func keyExec(r *kit.Run) {
	d := &device{}
	d.faults(r.P)
	main := refs[r.P("curve")]
	d.L = (main.bits + 7) / 8
	for i := int64(0); i < r.P("scripts"); i++ {
		d.script = append(d.script, scripted(main, int(kit.Mix(uint64(r.P("scriptseed"))*7+uint64(i))%10)))
	}
	peer := make([]pt, 4)
	for i, c := range refs {
		peer[i] = pt{c.gx, c.gy}
	}
	var all []*keyRes
	for c := 0; c < int(r.P("clients")); c++ {
		var l []*keyRes
		for _, o := range r.Ops(c) {
			x := &keyRes{op: o}
			l = append(l, x)
			all = append(all, x)
		}
		r.Go("client", func() {
			defer kit.Publish()
			for _, k := range l {
				stall(k.op.B)
				cv := curveOf(k.op.A)
				k.c = d.begin()
				k.priv, k.x, k.y, k.err = cv.GenerateKey(d)
				k.c.end()
				if k.err == nil && k.x != nil && k.y != nil {
					if k.op.N&1 != 0 {
						// The peer's public key, computed by the peer.
						px, py := cv.ScalarBaseMult(peerScalars[k.op.N>>4&3])
						qx, qy := new(big.Int).Set(px), new(big.Int).Set(py)
						k.sx, k.sy = cv.ScalarMult(px, py, k.priv)
						if px.Cmp(qx) != 0 || py.Cmp(qy) != 0 {
							k.bad = "deriving the secret changed the peer's public key"
						}
						if k.op.N&8 != 0 {
							px.SetInt64(5)
							py.SetInt64(6)
						}
					}
					if k.op.N&2 != 0 {
						k.enc = cv.Marshal(k.x, k.y)
						k.dx, k.dy = cv.Unmarshal(k.enc)
						if b := misread(cv, k.enc, uint64(k.op.N)); b != "" {
							k.bad = b
						}
					}
				}
				if k.err == nil && k.x != nil && k.y != nil && k.op.N&4 != 0 {
					for _, j := range l {
						if j == k || !j.done || j.err != nil || j.x == nil || j.y == nil || j.op.A != k.op.A {
							continue
						}
						ax, ay := cv.ScalarMult(j.x, j.y, k.priv)
						bx, by := cv.ScalarMult(k.x, k.y, j.priv)
						if (ax == nil) != (bx == nil) || ax != nil && (ax.Cmp(bx) != 0 || ay.Cmp(by) != 0) {
							k.bad = "the two sides of a key agreement differ"
						}
						kit.Hit(prBothSides)
						if j.x.Cmp(k.x) != 0 || j.y.Cmp(k.y) == 0 { // else the sum is no point of the plane
							var z sum
							z.other = j
							z.x, z.y = cv.Add(k.x, k.y, j.x, j.y)
							k.sums = append(k.sums, z)
						}
					}
					var z sum
					z.x, z.y = cv.Double(k.x, k.y)
					k.sums = append(k.sums, z)
				}
				if k.err == nil && k.x != nil && k.y != nil && k.op.N&8 != 0 {
					if !cv.IsOnCurve(k.x, k.y) || cv.IsOnCurve(k.x, new(big.Int).Add(k.y, big.NewInt(1))) {
						k.bad = "the public key was misjudged as to being on the curve"
					}
					// What was returned is the caller's own.
					p, x, y := k.priv, k.x, k.y
					k.priv, k.x, k.y = bytes.Clone(p), new(big.Int).Set(x), new(big.Int).Set(y)
					for i := range p {
						p[i] = 0xee
					}
					x.SetInt64(77)
					y.SetInt64(78)
					if k.enc != nil {
						e := k.enc
						k.enc = bytes.Clone(e)
						for i := range e {
							e[i] = 0xdd
						}
					}
					kit.Hit(prOwned)
				}
				k.done = true
			}
		})
	}
	if !r.Drain() || !r.MustEnd("generating keys") {
		return
	}
	for i, k := range all {
		c := refs[k.op.A]
		L := (c.bits + 7) / 8
		got := k.c.got
		if k.err != nil {
			kit.Hit(prKeyErr)
			if k.x != nil || k.y != nil {
				r.Violate("error", "key %d: a public key was returned together with the error %v", i, k.err)
				return
			}
			if !k.c.partial {
				r.Violate("error", "key %d: failed with %v although the entropy source delivered every byte", i, k.err)
				return
			}
			ok := errors.Is(k.err, k.c.devErr)
			if k.c.devErr == io.EOF {
				ok = errors.Is(k.err, io.EOF) || errors.Is(k.err, io.ErrUnexpectedEOF)
			}
			if !ok {
				r.Violate("error", "key %d: failed with %v, the entropy source with %v", i, k.err, k.c.devErr)
				return
			}
			continue
		}
		if k.c.partial {
			r.Violate("entropy", "key %d: generated although the entropy source failed with %v after %d of %d bytes", i, k.c.devErr, len(got)%L, L)
			return
		}
		if k.x == nil || k.y == nil {
			r.Violate("key", "key %d: neither a public key nor an error", i)
			return
		}
		if len(got) == 0 || len(got)%L != 0 {
			r.Violate("entropy", "key %d: generated from %d bytes of entropy, a key needs %d", i, len(got), L)
			return
		}
		kit.Hit(prKeys)
		if len(got) > L {
			kit.Hit(prRetried)
		}
		for o := 0; o+L < len(got); o += L {
			if c.scalar(c.gx, c.gy, keyOf(c, got[o:o+L])).x != nil {
				r.Violate("entropy", "key %d: a usable block of entropy was thrown away", i)
				return
			}
		}
		want := keyOf(c, got[len(got)-L:])
		if len(k.priv) != L || new(big.Int).SetBytes(k.priv).Cmp(want) != 0 {
			r.Violate("key", "key %d: the private key %x is not the entropy drawn for it, %x", i, k.priv, want)
			return
		}
		p := c.scalar(c.gx, c.gy, want)
		if p.x == nil || k.x.Cmp(p.x) != 0 || k.y.Cmp(p.y) != 0 || !c.on(k.x, k.y) {
			r.Violate("key", "key %d: the public key is not the private key's point", i)
			return
		}
		if k.bad != "" {
			r.Violate("agree", "key %d: %s", i, k.bad)
			return
		}
		for _, z := range k.sums {
			other, what := want, "twice its point"
			if z.other != nil {
				other, what = keyOf(c, z.other.c.got[len(z.other.c.got)-L:]), "the sum of its and another key's point"
				kit.Hit(prPtSums)
			} else {
				kit.Hit(prPtDoubles)
			}
			w := c.scalar(c.gx, c.gy, new(big.Int).Add(want, other))
			if w.x == nil || z.x == nil || z.y == nil || z.x.Cmp(w.x) != 0 || z.y.Cmp(w.y) != 0 {
				r.Violate("sum", "key %d: %s is wrong", i, what)
				return
			}
		}
		if k.op.N&1 != 0 {
			kit.Hit(prAgree)
			s := c.scalar(p.x, p.y, new(big.Int).SetBytes(peerScalars[k.op.N>>4&3]))
			if s.x == nil || k.sx == nil || k.sx.Cmp(s.x) != 0 || k.sy.Cmp(s.y) != 0 {
				r.Violate("agree", "key %d: the two sides of a key agreement differ", i)
				return
			}
		}
		if k.op.N&2 != 0 {
			e := make([]byte, 1+2*L)
			e[0] = 4
			p.x.FillBytes(e[1 : 1+L])
			p.y.FillBytes(e[1+L:])
			if !bytes.Equal(e, k.enc) || k.dx == nil || k.dx.Cmp(p.x) != 0 || k.dy == nil || k.dy.Cmp(p.y) != 0 {
				r.Violate("encode", "key %d: the public key was encoded as %x", i, k.enc)
				return
			}
		}
	}
	for i, c := range refs {
		if err := same(c, curveOf(int64(i))); err != "" {
			r.Violate("curve", "curve %s: %s after use", c.name, err)
			return
		}
	}
}

// keyOf is the key a block of entropy stands for.
func keyOf(c *ref, b []byte) *big.Int {
	b = append([]byte(nil), b...)
	b[1] ^= 0x42
	return new(big.Int).SetBytes(b)
}

func same(c *ref, v *crypto.BitCurve) string {
	switch {
	case v == nil:
		return "missing"
	case v.P == nil || v.P.Cmp(c.p) != 0:
		return "wrong field"
	case v.N == nil || v.N.Cmp(c.n) != 0:
		return "wrong order"
	case v.B == nil || v.B.Cmp(c.b) != 0:
		return "wrong coefficient"
	case v.Gx == nil || v.Gy == nil || v.Gx.Cmp(c.gx) != 0 || v.Gy.Cmp(c.gy) != 0:
		return "wrong base point"
	case v.BitSize != c.bits:
		return "wrong size"
	}
	return ""
}

func curveGen(g *kit.Gen) {
	n := g.Range(1, 5)
	g.Set("clients", int64(n))
	for c := 0; c < n; c++ {
		for k := g.Range(1, 4); k > 0; k-- {
			g.Op(c, "curve", int64(g.N(4)), int64(g.N(4)))
		}
	}
}

type curveUse struct {
	op  kit.Op
	v   *crypto.BitCurve
	bad string
}

func curveExec(r *kit.Run) {
	var all []*curveUse
	if r.P("clients") > 1 {
		kit.Hit(prFirst)
	}
	for c := 0; c < int(r.P("clients")); c++ {
		var l []*curveUse
		for _, o := range r.Ops(c) {
			x := &curveUse{op: o}
			l = append(l, x)
			all = append(all, x)
		}
		r.Go("client", func() {
			defer kit.Publish()
			for _, u := range l {
				stall(u.op.B)
				u.v = curveOf(u.op.A)
				u.bad = same(refs[u.op.A], u.v)
				if u.bad == "" && !u.v.IsOnCurve(u.v.Gx, u.v.Gy) {
					u.bad = "base point not on it"
				}
				if u.bad == "" {
					p := u.v.Params()
					if p.P.Cmp(u.v.P) != 0 || p.N.Cmp(u.v.N) != 0 || p.B.Cmp(u.v.B) != 0 || p.Gx.Cmp(u.v.Gx) != 0 || p.Gy.Cmp(u.v.Gy) != 0 || p.BitSize != u.v.BitSize {
						u.bad = "other parameters reported"
					}
				}
			}
		})
	}
	if !r.Drain() || !r.MustEnd("first use of the curves") {
		return
	}
	for _, u := range all {
		if u.bad != "" {
			r.Violate("curve", "curve %s: %s", refs[u.op.A].name, u.bad)
			return
		}
		for _, v := range all {
			if u.op.A == v.op.A && u.v != v.v {
				r.Violate("curve", "curve %s: two callers were given different instances", refs[u.op.A].name)
				return
			}
		}
	}
}
