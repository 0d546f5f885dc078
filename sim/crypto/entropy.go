//go:build go1.22

package main

import (
	"errors"
	"io"
	"io/fs"
	"math/big"
	"os"
	"runtime"
	"syscall"

	"flychain/zzverifsim/kit"
)

var (
	faShort = kit.Ctr("fault.entropy_short_read")
	faZero  = kit.Ctr("fault.entropy_empty_read")
	faErr   = kit.Ctr("fault.entropy_error")
	faErrP  = kit.Ctr("fault.entropy_error_after_part")
	faErrF  = kit.Ctr("fault.entropy_error_with_all_bytes")
	faEOF   = kit.Ctr("fault.entropy_exhausted")
	faSlow  = kit.Ctr("fault.entropy_slow")
	faBad   = kit.Ctr("fault.entropy_degenerate_block")
	faStall = kit.Ctr("fault.client_stall")
)

var errDevice = errors.New("entropy device failed")

// The errors a device fails with: one kind per run.
var devErrs = []error{
	errDevice,
	io.ErrUnexpectedEOF,
	io.EOF,
	io.ErrNoProgress,
	&fs.PathError{Op: "read", Path: "/dev/urandom", Err: syscall.EINTR},
	&fs.PathError{Op: "read", Path: "/dev/urandom", Err: syscall.EAGAIN},
	os.ErrDeadlineExceeded,
	io.ErrShortBuffer,
}

// device is a source of random bytes with faults. It knows which call each
// byte was given to.
type device struct {
	short, zero, err, errPart, errFull, slow int
	fail                                     error
	left                                     int // bytes until the end; -1 is unlimited
	script                                   [][]byte
	L                                        int
	calls                                    []*ecall
	busy                                     bool
	n                                        uint64
}

// ecall is one call to the code under test that draws from the device.
type ecall struct {
	g       int32
	got     []byte
	script  []byte // what remains of its scripted block
	devErr  error  // the last error it was given
	partial bool   // its device error left a block incomplete
	zeros   int
	active  bool
}

//go:norace
func (d *device) begin() *ecall {
	c := &ecall{g: runtime.SimSelf(), active: true}
	d.calls = append(d.calls, c)
	return c
}

//go:norace
func (c *ecall) end() { c.active = false }

//go:norace
func (d *device) cur() *ecall {
	for i := len(d.calls) - 1; i >= 0; i-- {
		if d.calls[i].active && d.calls[i].g == runtime.SimSelf() {
			return d.calls[i]
		}
	}
	return nil
}

//go:norace
func (d *device) byte_(c *ecall) byte {
	if c != nil && d.L > 0 && len(c.got)%d.L == 0 && len(c.script) == 0 && len(d.script) > 0 {
		// A new block begins: it may be a scripted one.
		if kit.Rnd(2) == 0 {
			c.script = d.script[0]
			d.script = d.script[1:]
			kit.Hit(faBad)
		}
	}
	if c != nil && len(c.script) > 0 {
		b := c.script[0]
		c.script = c.script[1:]
		return b
	}
	d.n++
	return byte(kit.Mix(d.n*0x1234567 ^ uint64(kit.Rnd(1<<30))))
}

//go:norace
func chance(p int) bool { return p > 0 && kit.Rnd(1000) < p }

//go:norace
func (d *device) Read(p []byte) (int, error) {
	c := d.cur()
	kit.SimPoint()
	if d.slow > 0 && chance(500) {
		kit.Hit(faSlow)
		kit.Stall(int64(d.slow))
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c != nil && c.zeros < 20 && chance(d.zero) {
		kit.Hit(faZero)
		c.zeros++
		return 0, nil
	}
	if chance(d.err) {
		kit.Hit(faErr)
		if c != nil {
			c.devErr, c.partial = d.fail, true
		}
		return 0, d.fail
	}
	n := len(p)
	if n > 1 && chance(d.short) {
		kit.Hit(faShort)
		n = 1 + kit.Rnd(n-1)
	}
	var err error
	if n > 1 && chance(d.errPart) {
		kit.Hit(faErrP)
		n = 1 + kit.Rnd(n-1)
		err = d.fail
	}
	if d.left >= 0 {
		if n > d.left {
			n = d.left
		}
		d.left -= n
		if n == 0 {
			kit.Hit(faEOF)
			if c != nil {
				c.devErr, c.partial = io.EOF, true
			}
			return 0, io.EOF
		}
	}
	for i := 0; i < n; i++ {
		b := d.byte_(c)
		p[i] = b
		if c != nil {
			c.got = append(c.got, b)
		}
		if i%8 == 7 {
			runtime.SimYield()
		}
	}
	if err == nil && n == len(p) && chance(d.errFull) {
		kit.Hit(faErrF)
		return n, d.fail
	}
	if err != nil && n < len(p) {
		if c != nil {
			c.devErr, c.partial = err, true
		}
		return n, err
	}
	return n, nil
}

func (d *device) faults(g func(string) int64) {
	d.short, d.zero, d.err = int(g("short")), int(g("zero")), int(g("err"))
	d.errPart, d.errFull, d.slow = int(g("errpart")), int(g("errfull")), int(g("slow"))
	d.fail = devErrs[int(g("errkind"))%len(devErrs)]
	d.left = -1
	if l := g("left"); l > 0 {
		d.left = int(l - 1)
	}
}

func genFaults(g *kit.Gen) {
	if g.P(3, 4) {
		g.Set("short", g.Pick(0, 200, 700))
		g.Set("zero", g.Pick(0, 100, 500))
		g.Set("slow", g.Pick(0, 1, 4))
	}
	if g.P(1, 2) {
		g.Set("err", g.Pick(0, 50, 300))
		g.Set("errpart", g.Pick(0, 50, 300))
		g.Set("errfull", g.Pick(0, 300))
		if g.P(1, 2) {
			g.Set("errkind", int64(g.N(len(devErrs))))
		}
		if g.P(1, 3) {
			g.Set("left", int64(1+g.N(140)))
		}
	}
}

func stall(n int64) {
	if n > 0 {
		kit.Hit(faStall)
	}
	kit.Stall(n)
}

// ---- reference arithmetic on y² = x³ + b, independent of the code under test ----

type ref struct {
	name        string
	p, n, b     *big.Int
	gx, gy      *big.Int
	bits, bytes int
}

func hex(s string) *big.Int {
	z, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return z
}

// The parameters of SEC 2, by their sparse primes.
func sparse(bits uint, terms ...uint) *big.Int {
	z := new(big.Int).Lsh(big.NewInt(1), bits)
	for _, t := range terms {
		z.Sub(z, new(big.Int).Lsh(big.NewInt(1), t))
	}
	return z
}

var refs = []*ref{
	{name: "160", p: sparse(160, 32, 14, 12, 9, 8, 7, 3, 2, 0), n: hex("100000000000000000001B8FA16DFAB9ACA16B6B3"), b: big.NewInt(7),
		gx: hex("3B4C382CE37AA192A4019E763036F4F5DD4D7EBB"), gy: hex("938CF935318FDCED6BC28286531733C3F03C4FEE"), bits: 160},
	{name: "192", p: sparse(192, 32, 12, 8, 7, 6, 3, 0), n: hex("FFFFFFFFFFFFFFFFFFFFFFFE26F2FC170F69466A74DEFD8D"), b: big.NewInt(3),
		gx: hex("DB4FF10EC057E9AE26B07D0280B7F4341DA5D1B1EAE06C7D"), gy: hex("9B2F2F6D9C5628A7844163D015BE86344082AA88D95E2F9D"), bits: 192},
	{name: "224", p: sparse(224, 32, 12, 11, 9, 7, 4, 1, 0), n: hex("10000000000000000000000000001DCE8D2EC6184CAF0A971769FB1F7"), b: big.NewInt(5),
		gx: hex("A1455B334DF099DF30FC28A169A467E9E47075A90F7E650EB6B7A45C"), gy: hex("7E089FED7FBA344282CAFBD6F7E319F7C0B0BD59E2CA4BDB556D61A5"), bits: 224},
	{name: "256", p: sparse(256, 32, 9, 8, 7, 6, 4, 0), n: hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"), b: big.NewInt(7),
		gx: hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), gy: hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"), bits: 256},
}

type pt struct{ x, y *big.Int } // nil x: infinity

func (c *ref) on(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.p) >= 0 || y.Cmp(c.p) >= 0 {
		return false
	}
	l := new(big.Int).Exp(y, big.NewInt(2), c.p)
	r := new(big.Int).Exp(x, big.NewInt(3), c.p)
	r.Add(r, c.b)
	r.Mod(r, c.p)
	return l.Cmp(r) == 0
}

// jac is a point in Jacobian coordinates; z = 0 is infinity.
type jac struct{ x, y, z *big.Int }

func (c *ref) mod(z *big.Int) *big.Int { return z.Mod(z, c.p) }
func (c *ref) mul(a, b *big.Int) *big.Int {
	return c.mod(new(big.Int).Mul(a, b))
}
func (c *ref) sub(a, b *big.Int) *big.Int { return c.mod(new(big.Int).Sub(a, b)) }

func (c *ref) dbl(a jac) jac {
	if a.z.Sign() == 0 || a.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	y2 := c.mul(a.y, a.y)
	s := c.mul(big.NewInt(4), c.mul(a.x, y2))
	m := c.mul(big.NewInt(3), c.mul(a.x, a.x))
	x := c.sub(c.mul(m, m), new(big.Int).Lsh(s, 1))
	y := c.sub(c.mul(m, c.sub(s, x)), c.mul(big.NewInt(8), c.mul(y2, y2)))
	z := c.mul(big.NewInt(2), c.mul(a.y, a.z))
	return jac{x, y, z}
}

func (c *ref) add(a, b jac) jac {
	if a.z.Sign() == 0 {
		return b
	}
	if b.z.Sign() == 0 {
		return a
	}
	az2, bz2 := c.mul(a.z, a.z), c.mul(b.z, b.z)
	u1, u2 := c.mul(a.x, bz2), c.mul(b.x, az2)
	s1, s2 := c.mul(a.y, c.mul(b.z, bz2)), c.mul(b.y, c.mul(a.z, az2))
	h, r := c.sub(u2, u1), c.sub(s2, s1)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return c.dbl(a)
		}
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	h2 := c.mul(h, h)
	h3 := c.mul(h2, h)
	v := c.mul(u1, h2)
	x := c.sub(c.sub(c.mul(r, r), h3), new(big.Int).Lsh(v, 1))
	y := c.sub(c.mul(r, c.sub(v, x)), c.mul(s1, h3))
	return jac{x, y, c.mul(h, c.mul(a.z, b.z))}
}

// scalar multiplies from the low end, after reduction.
func (c *ref) scalar(x, y, k *big.Int) pt {
	e := new(big.Int).Mod(k, c.n)
	acc := jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	q := jac{x, y, big.NewInt(1)}
	for i := 0; i < e.BitLen(); i++ {
		if e.Bit(i) == 1 {
			acc = c.add(acc, q)
		}
		q = c.dbl(q)
	}
	if acc.z.Sign() == 0 {
		return pt{}
	}
	zi := new(big.Int).ModInverse(acc.z, c.p)
	zi2 := c.mul(zi, zi)
	return pt{c.mul(acc.x, zi2), c.mul(acc.y, c.mul(zi, zi2))}
}
