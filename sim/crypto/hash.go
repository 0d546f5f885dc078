//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"hash"
	"io"
	"math/bits"

	"flychain/crypto/randentropy"
	"flychain/crypto/sha3"
	"flychain/zzverifsim/kit"
)

// C23: digests fed in fragments by concurrent callers, some of them from
// unreliable readers.
//
//	op "write": A length, B data seed, N: 0 as is, 1 as a string of a larger
//	array that goes on being used, 2 through io.Copy from a faulty reader
//	op "sum": A length of the prefix, B spare capacity
//	and 3 from an array that the other callers are reading at the same time
//	op "drip": A bytes one at a time; "both": two goroutines take the digest
//	op "reset", "size", "one" (the one-shot helper: A length, B seed), "pass"
//	(hand the digest to another goroutine for a while)
func init() {
	kit.Register(&kit.Prop{ID: "C23", Slow: true, Steps: 4000, StepCap: 3000000, Gen: hashGen, Exec: hashExec})
}

var (
	prSums   = kit.Ctr("probe.digest_compared")
	prMid    = kit.Ctr("probe.digest_continued_after_sum")
	prCopy   = kit.Ctr("probe.copied_from_faulty_reader")
	prReused = kit.Ctr("probe.digest_reused_after_reset")
	prShared = kit.Ctr("probe.data_shared_between_digests")
	prBoth   = kit.Ctr("probe.digest_taken_by_two_at_once")
	prPassed = kit.Ctr("probe.digest_passed_between_goroutines")
)

var rates = []int{144, 136, 104, 72}

func hashGen(g *kit.Gen) {
	n := g.Range(1, 3)
	g.Set("clients", int64(n))
	g.Set("alg", int64(g.N(4)))
	genFaults(g)
	for c := 0; c < n; c++ {
		alg := int64(g.N(4))
		if g.P(1, 2) {
			alg = g.Plan.P["alg"]
		}
		g.Op(c, "alg", alg)
		rate := rates[alg]
		for k := g.Range(1, 9); k > 0; k-- {
			switch g.N(10) {
			case 0, 1, 2, 3, 4, 5:
				var ln int
				switch g.N(6) {
				case 0:
					ln = g.N(9)
				case 1:
					ln = rate + g.N(3) - 1
				case 2:
					ln = 8 * g.N(20)
				case 3:
					ln = g.N(40)
				case 4:
					ln = 2*rate + g.N(17) - 8
					if g.P(1, 12) {
						ln = 500 + g.N(5000)
					}
				default:
					ln = g.N(2 * rate)
				}
				g.Op(c, "write", int64(ln), int64(g.N(1000)), g.Pick(0, 1, 2, 0, 1, 2, 3))
			case 6, 7:
				g.Op(c, "sum", int64(g.N(20)), g.Pick(0, 0, 8, 100))
			case 8:
				switch g.N(6) {
				case 4:
					g.Op(c, "drip", int64(g.N(2*rate)), int64(g.N(1000)))
				case 5:
					g.Op(c, "both", int64(g.N(20)))
				case 0:
					g.Op(c, "reset")
				case 1:
					g.Op(c, "size")
				case 2:
					g.Op(c, "one", int64(g.N(200)), int64(g.N(1000)))
				default:
					g.Op(c, "pass", int64(g.N(100)), int64(g.N(1000)))
				}
			default:
				g.Op(c, "write", int64(g.N(8)), int64(g.N(1000)), 0)
			}
		}
		g.Op(c, "sum", 0, 0)
	}
}

func fillData(n, seed int64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(kit.Mix(uint64(seed)*1000 + uint64(i/8)>>uint(8*(i%8))))
	}
	return b
}

func newHash(alg int64) hash.Hash {
	switch alg {
	case 0:
		return sha3.NewKeccak224()
	case 1:
		return sha3.NewKeccak256()
	case 2:
		return sha3.NewKeccak384()
	}
	return sha3.NewKeccak512()
}

var outSize = []int{28, 32, 48, 64}

// source is a reader with faults that ends after its data.
type source struct {
	data []byte
	d    *device
	end  error
}

//go:norace
func (s *source) Read(p []byte) (int, error) {
	kit.SimPoint()
	d := s.d
	if d.slow > 0 && chance(300) {
		kit.Hit(faSlow)
		kit.Stall(int64(d.slow))
	}
	if len(s.data) == 0 {
		return 0, s.end
	}
	if chance(d.zero / 2) {
		kit.Hit(faZero)
		return 0, nil
	}
	if chance(d.err / 4) {
		kit.Hit(faErr)
		return 0, errDevice
	}
	n := len(p)
	if n > len(s.data) {
		n = len(s.data)
	}
	if n > 1 && chance(d.short) {
		kit.Hit(faShort)
		n = 1 + kit.Rnd(n-1)
	}
	copy(p[:n], s.data)
	s.data = s.data[n:]
	if chance(d.errPart / 4) {
		kit.Hit(faErrP)
		return n, errDevice
	}
	if len(s.data) == 0 && s.d.errFull > 0 {
		return n, s.end
	}
	return n, nil
}

func hashExec(r *kit.Run) {
	d := &device{}
	d.faults(r.P)
	shared := fillData(6000, 77)
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		r.Go("client", func() {
			defer kit.Publish()
			var h hash.Hash
			var alg int64
			var fed []byte
			summed := false
			for _, o := range ops {
				switch o.K {
				case "alg":
					alg = o.A
					h = newHash(alg)
				case "write":
					data := fillData(o.A, o.B)
					keep := append([]byte(nil), data...)
					if summed && o.A > 0 {
						kit.Hit(prMid)
					}
					if o.N == 3 {
						kit.Hit(prShared)
						from := int(o.B % 500)
						part := shared[from : from+int(o.A)]
						fed = append(fed, fillData(6000, 77)[from:from+int(o.A)]...)
						if n, err := h.Write(part); n != len(part) || err != nil {
							r.Violate("write", "writing %d bytes returned %d and %v", len(part), n, err)
							return
						}
						continue
					}
					if o.N == 2 {
						kit.Hit(prCopy)
						src := &source{data: data, d: d, end: io.EOF}
						n, err := io.CopyBuffer(struct{ io.Writer }{h}, src, make([]byte, 64))
						if err != nil && !errors.Is(err, errDevice) {
							r.Violate("error", "copying into a digest failed with %v", err)
							return
						}
						fed = append(fed, keep[:n]...)
						if int(n) != len(keep)-len(src.data) {
							r.Violate("write", "%d bytes were read but %d written to the digest", len(keep)-len(src.data), n)
							return
						}
						continue
					}
					if o.N == 1 {
						data = append(data, 0xaa, 0xbb)[:len(data)]
					}
					n, err := h.Write(data)
					if n != len(keep) || err != nil {
						r.Violate("write", "writing %d bytes returned %d and %v", len(keep), n, err)
						return
					}
					if !bytes.Equal(data, keep) {
						r.Violate("input", "writing to a digest changed the data")
						return
					}
					for i := range data {
						data[i] = 0xcc // the caller may reuse its buffer
					}
					fed = append(fed, keep...)
				case "sum":
					kit.Hit(prSums)
					summed = true
					want := keccak(rates[alg], outSize[alg], fed)
					arr := bytes.Repeat([]byte{0x5a}, int(o.A)+outSize[alg]+int(o.B)+40)
					in := arr[:o.A]
					if o.B < 50 {
						in = arr[: o.A : int(o.A)+int(o.B)]
					}
					got := h.Sum(in)
					if len(got) != int(o.A)+outSize[alg] || !bytes.Equal(got[o.A:], want) || !bytes.Equal(got[:o.A], bytes.Repeat([]byte{0x5a}, int(o.A))) {
						r.Violate("digest", "the digest of %d bytes is %x, want %x", len(fed), got, want)
						return
					}
					for i := range got {
						got[i] = 0x5a // the digest is the caller's own
					}
					for i, b := range arr {
						if b != 0x5a && (i < int(o.A) || i >= int(o.A)+outSize[alg]) {
							r.Violate("output", "byte %d of the caller's array was overwritten; the digest takes %d to %d", i, o.A, int(o.A)+outSize[alg])
							return
						}
					}
				case "drip":
					for _, b := range fillData(o.A, o.B) {
						if n, err := h.Write([]byte{b}); n != 1 || err != nil {
							r.Violate("write", "writing one byte returned %d and %v", n, err)
							return
						}
						fed = append(fed, b)
					}
				case "both":
					kit.Hit(prBoth)
					want := keccak(rates[alg], outSize[alg], fed)
					done := make(chan []byte)
					r.Go("helper", func() { done <- h.Sum(nil) })
					mine := h.Sum(bytes.Repeat([]byte{1}, int(o.A)))
					other := <-done
					if !bytes.Equal(other, want) || !bytes.Equal(mine[o.A:], want) {
						r.Violate("digest", "two goroutines took the digest of %d bytes as %x and %x, want %x", len(fed), other, mine[o.A:], want)
						return
					}
				case "reset":
					kit.Hit(prReused)
					h.Reset()
					fed = nil
				case "size":
					if h.Size() != outSize[alg] || h.BlockSize() != rates[alg] {
						r.Violate("size", "size %d and block size %d", h.Size(), h.BlockSize())
						return
					}
				case "one":
					data := fillData(o.A, o.B)
					got := randentropy.Sha3(data)
					if want := keccak(136, 32, data); !bytes.Equal(got, want) || !bytes.Equal(data, fillData(o.A, o.B)) {
						r.Violate("digest", "the one-shot digest of %d bytes is %x, want %x", len(data), got, want)
						return
					}
				case "pass":
					kit.Hit(prPassed)
					data := fillData(o.A, o.B)
					done := make(chan int)
					r.Go("helper", func() {
						n, _ := h.Write(data)
						done <- n
					})
					fed = append(fed, data...)
					if n := <-done; n != len(data) {
						r.Violate("write", "writing %d bytes returned %d", len(data), n)
						return
					}
				}
			}
		})
	}
	if r.Drain() && r.MustEnd("hashing") && !bytes.Equal(shared, fillData(6000, 77)) {
		r.Violate("input", "writing to a digest changed the data")
	}
}

// keccak is an independent implementation of the original Keccak sponge.
func keccak(rate, out int, msg []byte) []byte {
	var a [5][5]uint64
	m := append(append([]byte(nil), msg...), 1)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] |= 0x80
	for ; len(m) > 0; m = m[rate:] {
		for i := 0; i < rate/8; i++ {
			a[i%5][i/5] ^= binary.LittleEndian.Uint64(m[8*i:])
		}
		permute(&a)
	}
	var z []byte
	for i := 0; len(z) < out; i++ {
		z = binary.LittleEndian.AppendUint64(z, a[i%5][i/5])
	}
	return z[:out]
}

func permute(a *[5][5]uint64) {
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := range c {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := range c {
			t := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := range c {
				a[x][y] ^= t
			}
		}
		x, y, cur := 1, 0, a[1][0]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x][y] = a[x][y], bits.RotateLeft64(cur, (t+1)*(t+2)/2)
		}
		for y := range c {
			for x := range c {
				c[x] = a[x][y]
			}
			for x := range c {
				a[x][y] = c[x] ^ ^c[(x+1)%5]&c[(x+2)%5]
			}
		}
		for j := uint(0); j < 7; j++ {
			if lfsr&1 != 0 {
				a[0][0] ^= 1 << (1<<j - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
	}
}
