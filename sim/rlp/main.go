//go:build go1.22

package main

import (
	"time"

	"flychain/zzverifsim/kit"
)

func main() { kit.Main() }

type rnd struct{ x uint64 }

func (r *rnd) n(n int) int { r.x = kit.Mix(r.x); return int(r.x % uint64(n)) }

func (r *rnd) raw(n int) []byte {
	b := make([]byte, n)
	k := r.n(5)
	for i := range b {
		r.x = kit.Mix(r.x)
		switch k {
		case 0:
		case 1:
			b[i] = 0xff
		default:
			b[i] = byte(r.x)
		}
	}
	return b
}

func stall(n int64) { kit.Stall(n) }

var _ = time.Second
