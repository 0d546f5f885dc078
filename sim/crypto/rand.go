//go:build go1.22

package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"io"

	"flychain/crypto"
	"flychain/crypto/randentropy"
	"flychain/zzverifsim/kit"
)

// C24: the node's random source on top of an unreliable system source.
//
//	op "draw": A length, B stall, N: 0 function, 1 reader, 2 ReadFull on the
//	reader, 3 key generation from it
func init() {
	kit.Register(&kit.Prop{ID: "C24", Slow: true, Steps: 600, StepCap: 3000000, Gen: randGen, Exec: randExec})
}

var (
	prDraw  = kit.Ctr("probe.random_bytes_drawn")
	prPanic = kit.Ctr("probe.refused_without_entropy")
	prEmpty = kit.Ctr("probe.zero_bytes_requested")
)

func randGen(g *kit.Gen) {
	n := g.Range(1, 4)
	g.Set("clients", int64(n))
	genFaults(g)
	for c := 0; c < n; c++ {
		for k := g.Range(1, 4); k > 0; k-- {
			how := int64(g.N(3))
			if g.P(1, 40) {
				how = 3
			}
			ln := g.Pick(0, 1, 7, 32, 32, int64(g.N(100)), int64(g.N(100)))
			if g.P(1, 25) {
				ln = g.Pick(255, 256, 257, 1024, 4095, 4096, 4097, int64(g.N(9000)))
			}
			g.Op(c, "draw", ln, int64(g.N(4)), how)
		}
	}
}

type draw struct {
	op    kit.Op
	c     *ecall
	out   []byte
	n     int
	err   error
	panic string
	key   bool
}

func (w *draw) do() {
	defer func() {
		if e := recover(); e != nil {
			w.panic = fmt.Sprint(e)
		}
	}()
	switch w.op.N {
	case 0:
		w.out = randentropy.GetEntropyCSPRNG(int(w.op.A))
		w.n = len(w.out)
	case 3:
		priv, x, y, err := crypto.S160().GenerateKey(randentropy.Reader)
		if err == nil && (x == nil || y == nil) {
			err = fmt.Errorf("no key")
		}
		w.err = err
		if len(priv) > 1 {
			priv[1] ^= 0x42
		}
		w.out, w.n, w.key = priv, len(priv), true
	default:
		w.out = bytes.Repeat([]byte{0xee}, int(w.op.A)+3)
		b := w.out[:w.op.A]
		if w.op.N == 1 {
			w.n, w.err = randentropy.Reader.Read(b)
		} else {
			w.n, w.err = io.ReadFull(randentropy.Reader, b)
		}
		for _, x := range w.out[w.op.A:] {
			if x != 0xee {
				w.err = fmt.Errorf("wrote beyond the buffer")
			}
		}
		w.out = b
	}
}

func randExec(r *kit.Run) {
	d := &device{}
	d.faults(r.P)
	old := crand.Reader
	crand.Reader = d
	defer func() { crand.Reader = old }()
	var all []*draw
	for c := 0; c < int(r.P("clients")); c++ {
		var l []*draw
		for _, o := range r.Ops(c) {
			w := &draw{op: o}
			l = append(l, w)
			all = append(all, w)
		}
		r.Go("client", func() {
			defer kit.Publish()
			for _, w := range l {
				stall(w.op.B)
				w.c = d.begin()
				w.do()
				w.c.end()
			}
		})
	}
	if !r.Drain() || !r.MustEnd("drawing random bytes") {
		return
	}
	for i, w := range all {
		n := int(w.op.A)
		if w.key {
			n = 20
		}
		if w.op.N == 3 && w.panic == "" && !w.key {
			n = 20
		}
		switch {
		case w.c.partial && w.panic == "":
			r.Violate("entropy", "call %d returned (%v) although the system's source failed with %v after %d of %d bytes", i, w.err, w.c.devErr, len(w.c.got), n)
			return
		case w.c.partial:
			kit.Hit(prPanic)
			continue
		case w.panic != "":
			r.Violate("panic", "call %d for %d bytes panicked although the system's source works: %s", i, n, w.panic)
			return
		case w.err != nil:
			r.Violate("error", "call %d for %d bytes failed: %v", i, n, w.err)
			return
		case w.n != n:
			r.Violate("length", "call %d for %d bytes returned %d", i, n, w.n)
			return
		}
		kit.Hit(prDraw)
		if n == 0 {
			kit.Hit(prEmpty)
		}
		if w.key && len(w.c.got) > 20 {
			continue
		}
		if !bytes.Equal(w.out, w.c.got) {
			r.Violate("entropy", "call %d returned %x, the system's source gave it %x", i, w.out, w.c.got)
			return
		}
	}
}
