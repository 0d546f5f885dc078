//go:build go1.22

package main

import (
	"fmt"
	"slices"
	"strings"

	"flychain/crypto"
	"flychain/zzverifsim/kit"
)

// C30: several goroutines turn messages into words and back over the one
// word list, and use the words they are given as their own.
//
//	op "words": A seed of the message, B stall, N blocks of 8 digits | 16: upper case
func init() {
	kit.Register(&kit.Prop{ID: "C30", Slow: true, Steps: 600, StepCap: 4000000, Gen: wordsGen, Exec: wordsExec})
}

var (
	prWords   = kit.Ctr("probe.messages_returned_from_words")
	prNoWords = kit.Ctr("probe.empty_message")
	faWords   = kit.Ctr("fault.word_slice_overwritten_by_its_owner")
	faWStall  = kit.Ctr("fault.client_stall")
)

func wordsGen(g *kit.Gen) {
	n := g.Range(1, 4)
	g.Set("clients", int64(n))
	more := 0
	if g.P(1, 30) { // long messages
		more = g.Range(1, 6)
	}
	for c := 0; c < n; c++ {
		for k := g.Range(1, 5); k > 0; k-- {
			st := int64(0)
			if g.P(1, 3) {
				st = int64(g.N(20))
			}
			g.Op(c, "words", int64(g.U64()%(1<<40)), st, int64(g.Pick(0, 1, 1, 2, 3, 7, 8, 8, 9, 12, 15))|int64(g.N(2))<<4|int64(more)<<5)
		}
	}
}

// message is n blocks of hexadecimal digits, some of them special.
func message(seed uint64, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		seed = kit.Mix(seed)
		v := uint32(seed >> 8)
		switch seed % 8 {
		case 0:
			v = 0
		case 1:
			v = 0xffffffff
		case 2:
			v = 1 << (v % 32)
		case 3: // the words at the ends of the list
			v = uint32(1626*uint64(v%1626) + uint64(v%3)*1625/2)
		case 4:
			v = 0x80000000 | v&0xff
		}
		s += fmt.Sprintf("%08x", v)
	}
	return s
}

func wordsExec(r *kit.Run) {
	list := slices.Clone(crypto.MnemonicWords)
	first := map[string]int{}
	for i, w := range list {
		if _, ok := first[w]; !ok {
			first[w] = i
		}
	}
	used := map[string]string{} // words of every message: different for different messages
	seen := []string{}
	for c := 0; c < int(r.P("clients")); c++ {
		ops := r.Ops(c)
		r.Go("client", func() {
			defer kit.Publish()
			for _, o := range ops {
				m := message(uint64(o.A), int(o.N&15+o.N>>5*16))
				in := m
				if o.N>>4&1 == 1 {
					in = strings.ToUpper(in)
				}
				if m == "" {
					kit.Hit(prNoWords)
				}
				if o.N&15 == 15 { // a long one
					in = strings.Repeat(in, 1+int(o.A%4))
					m = strings.Repeat(m, 1+int(o.A%4))
				}
				w := crypto.MnemonicEncode(in)
				for i := int64(0); i < o.B; i++ {
					kit.Hit(faWStall)
					kit.Yield()
				}
				if len(w) != len(m)/8*3 {
					r.Violate("words", "%d digits became %d words", len(m), len(w))
					return
				}
				for i, x := range w {
					if _, ok := first[x]; !ok {
						r.Violate("words", "word %d of %s is %q, which is not in the list", i, m, x)
						return
					}
				}
				mine := slices.Clone(w)
				wordsNote(&seen, m, strings.Join(w, " "))
				back := crypto.MnemonicDecode(w)
				if !slices.Equal(w, mine) {
					r.Violate("input", "decoding changed the caller's words")
				}
				if back != m {
					r.Violate("message", "%q became %q and then %q", in, strings.Join(mine, " "), back)
					return
				}
				kit.Hit(prWords)
				for i := range w {
					w[i] = "overwritten"
				}
				kit.Hit(faWords)
			}
		})
	}
	if !r.Drain() || !r.MustEnd("encoding and decoding") {
		return
	}
	for i := 0; i < len(seen); i += 2 {
		m, w := seen[i], seen[i+1]
		if p, ok := used[w]; ok && p != m {
			r.Violate("words", "%s and %s have the same words", p, m)
		}
		used[w] = m
	}
	if !slices.Equal(list, crypto.MnemonicWords) {
		r.Violate("list", "the word list was changed")
	}
}

//go:norace
func wordsNote(l *[]string, m, w string) { *l = append(*l, m, w) }
