//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"flychain/common/compiler"
	"flychain/zzverifsim/kit"
)

// C31: a compiler process writes its combined output, is killed at any point,
// and other processes read the file meanwhile and turn it into contracts.
//
//	op "write": A version of the output, B stall, N: 0-1 how (in place, replaced, removed), 2: indented, 3..: damage
//	op "parse": B stall, N 1: with the rules of version 8
//	op "crash": B stall
func init() {
	kit.Register(&kit.Prop{ID: "C31", Slow: true, Steps: 900, StepCap: 4000000, Gen: solcGen, Exec: solcExec})
}

var (
	prSolcOld     = kit.Ctr("probe.contracts_of_old_format")
	prSolcNew     = kit.Ctr("probe.contracts_of_new_format")
	prSolcEmpty   = kit.Ctr("probe.output_without_contracts")
	prSolcRefused = kit.Ctr("probe.damaged_output_refused")
	prSolcTorn    = kit.Ctr("probe.torn_output_refused")
	prSolcShared  = kit.Ctr("probe.output_parsed_by_two_at_once")
)

// part is one contract as the compiler knows it.
type part struct {
	name, bin, run, src, srcRun, meta string
	abi, user, dev                    any
	hashes                            map[string]string
}

func jsonText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// doc is some JSON value.
func (r *rnd) doc(depth int) any {
	switch k := r.n(7); {
	case k == 0 && depth > 0:
		m := map[string]any{}
		for i := r.n(3); i > 0; i-- {
			m[fmt.Sprintf("k%d", r.n(20))] = r.doc(depth - 1)
		}
		return m
	case k <= 2 && depth > 0:
		l := []any{}
		for i := r.n(3); i > 0; i-- {
			l = append(l, r.doc(depth-1))
		}
		return l
	case k == 3:
		return float64(r.n(1000))
	case k == 4:
		return r.n(2) == 0
	case k == 5:
		return nil
	}
	return fmt.Sprintf("text %d \"quoted\" \n é", r.n(1000))
}

// solcMake is the output of a version: its contracts and its text.
func solcMake(v int64, how int64) (old bool, parts map[string]part, data []byte) {
	r := &rnd{uint64(v)*31337 + 5}
	old = r.n(2) == 0
	parts = map[string]part{}
	cs := map[string]any{}
	k := r.n(4)
	if r.n(12) == 0 {
		k = 4 + r.n(40)
	}
	for ; k > 0; k-- {
		p := part{name: fmt.Sprintf("dir/file%d.sol:C%d", r.n(5), r.n(9))}
		hex := func() string { return fmt.Sprintf("%x", r.raw(r.n(12))) }
		p.bin, p.run, p.src, p.srcRun, p.meta = hex(), hex(), "1:2:"+hex(), "3:4:"+hex(), `{"m":"`+hex()+`"}`
		p.abi, p.user, p.dev = []any{r.doc(2)}, map[string]any{"methods": r.doc(1)}, map[string]any{"author": r.doc(1)}
		p.hashes = map[string]string{}
		for i := r.n(3); i > 0; i-- {
			p.hashes[fmt.Sprintf("f%d()", r.n(9))] = hex()
		}
		parts[p.name] = p
		c := map[string]any{"bin": p.bin, "bin-runtime": p.run, "srcmap": p.src, "srcmap-runtime": p.srcRun, "metadata": p.meta, "hashes": p.hashes,
			"abi": p.abi, "userdoc": p.user, "devdoc": p.dev}
		if old {
			c["abi"], c["userdoc"], c["devdoc"] = jsonText(p.abi), jsonText(p.user), jsonText(p.dev)
		}
		// Damage the format allows to be noticed.
		if dmg := how >> 3; dmg > 0 && k == 1 {
			switch dmg {
			case 1:
				c["bin"] = 17
			case 2:
				c["hashes"] = "none"
			case 3, 4, 5:
				f := []string{"abi", "userdoc", "devdoc"}[dmg-3]
				if old {
					s := c[f].(string)
					switch r.n(4) {
					case 0:
						c[f] = ""
					case 1:
						delete(c, f)
					case 2:
						c[f] = s + " " + s
					default:
						c[f] = s[:len(s)-1]
					}
				} else {
					c["metadata"] = map[string]any{"x": 1}
				}
			}
			delete(parts, p.name)
			p.name = "damaged " + p.name
			parts[p.name] = p
		}
		cs[strings.TrimPrefix(p.name, "damaged ")] = c
	}
	out := map[string]any{"contracts": cs}
	if ver := []string{"0.8.0", "0.8.4+commit.c7e474f2.Linux.g++", "0.10.1", "1.0.0", ""}[r.n(5)]; old {
		out["version"] = []string{"0.4.26+commit.4563c3fc.Linux.g++", "0.5.17", "0.7.6", "0.6.12-develop", ""}[r.n(5)]
	} else if ver != "" {
		out["version"] = ver
	}
	var err error
	if how>>2&1 == 1 {
		data, err = json.MarshalIndent(out, "", " ")
	} else {
		data, err = json.Marshal(out)
	}
	if err != nil {
		panic(err)
	}
	return
}

func solcGen(g *kit.Gen) {
	incs := g.Range(1, 2)
	g.Set("incs", int64(incs))
	n := g.Range(1, 2)
	g.Set("parsers", int64(n))
	g.Set("lat", g.Pick(0, 0, 1, 3))
	if g.P(1, 2) {
		g.Set("eintr", g.Pick(0, 100, 400))
		g.Set("short", g.Pick(0, 200, 600))
	}
	v := int64(g.U64() % (1 << 40))
	g.Set("base", v)
	for i := 0; i < incs; i++ {
		st := func() int64 {
			if g.P(1, 3) {
				return int64(g.N(25))
			}
			return 0
		}
		for k := g.N(3); k > 0 || i == 0 && k == 0; k-- {
			how := g.Pick(0, 0, 0, 1, 1, 1, 2) | int64(g.N(2))<<2
			if g.P(1, 3) {
				how |= int64(g.N(6)) << 3
			}
			g.Op(i*10, "write", v, st(), how)
			v++
		}
		for c := 1; c <= n; c++ {
			for k := g.Range(1, 2); k > 0; k-- {
				g.Op(i*10+c, "parse", 0, st(), int64(g.N(8)/7))
			}
		}
		if g.P(1, 2) {
			g.Op(i*10+9, "crash", 0, int64(g.N(60)))
		}
	}
}

const solcPath = "/zzsim/data/combined.json"

type parse struct {
	op   kit.Op
	data []byte
	err  error
	cs   map[string]*compiler.Contract
}

func solcExec(r *kit.Run) {
	kit.DiskTrack(solcPath)
	var all []*parse
	type outcome struct {
		old   bool
		parts map[string]part
		data  []byte
	}
	var outs []outcome
	var writes []kit.Op
	incs := int(r.P("incs"))
	for inc := 0; inc < incs; inc++ {
		for _, o := range r.Ops(inc * 10) {
			old, p, d := solcMake(o.A, o.N)
			writes, outs = append(writes, o), append(outs, outcome{old, p, d})
		}
	}
	at := 0
	run := func(inc int, l []*parse) {
		r.Go("parser", func() {
			defer kit.Publish()
			kit.DiskJoin(inc)
			for _, y := range l {
				stall(y.op.B)
				data, err := os.ReadFile(solcPath)
				if err != nil {
					continue
				}
				keep := append([]byte(nil), data...)
				var cs map[string]*compiler.Contract
				if y.op.N == 1 {
					cs, err = compiler.ParseCombinedJSONV8(data, "src", "lang 1", "comp 2", "opts")
				} else {
					cs, err = compiler.ParseCombinedJSON(data, "src", "lang 1", "comp 2", "opts")
				}
				if !bytes.Equal(data, keep) {
					r.Violate("input", "parsing changed the output that was parsed")
				}
				for i := range data {
					data[i] = '#' // the buffer is used again
				}
				y.data, y.cs, y.err = keep, cs, err
			}
		})
	}
	mk := func(ops []kit.Op) (l []*parse) {
		for _, o := range ops {
			y := &parse{op: o}
			l, all = append(l, y), append(all, y)
		}
		return
	}
	for inc := 0; inc < incs; inc++ {
		if inc > 0 && kit.DiskProc() < inc {
			cfgCrash(inc - 1)
		}
		kit.DiskSetFaults(cfgFaults(r))
		ops := r.Ops(inc * 10)
		first := at
		at += len(ops)
		r.Go("compiler", func() {
			defer kit.Publish()
			kit.DiskJoin(inc)
			for i, o := range ops {
				stall(o.B)
				data := outs[first+i].data
				switch o.N & 3 {
				case 0:
					os.WriteFile(solcPath, data, 0o644)
				case 1:
					tmp := fmt.Sprintf("%s.%d", solcPath, o.A)
					if os.WriteFile(tmp, data, 0o644) == nil {
						os.Rename(tmp, solcPath)
					}
				case 2:
					os.Remove(solcPath)
				}
			}
		})
		for c := 1; c <= int(r.P("parsers")); c++ {
			run(inc, mk(r.Ops(inc*10+c)))
		}
		for _, o := range r.Ops(inc*10 + 9) {
			r.Go("crash", func() {
				stall(o.B)
				cfgCrash(inc)
				kit.Publish()
			})
		}
		if !r.Drain() || !r.MustEnd("writing and parsing") {
			return
		}
	}
	cfgCrash(incs - 1)
	kit.DiskSetFaults(kit.DiskFaults{})
	run(incs, mk([]kit.Op{{}, {N: 1}}))
	if !r.Drain() || !r.MustEnd("parsing") {
		return
	}
	for i, y := range all {
		if y.data == nil {
			continue
		}
		if i > 0 && all[i-1].data != nil && bytes.Equal(all[i-1].data, y.data) {
			kit.Hit(prSolcShared)
		}
		var o *outcome
		for j := range outs {
			if bytes.Equal(outs[j].data, y.data) {
				o = &outs[j]
			}
		}
		if o == nil {
			if json.Valid(y.data) {
				continue // two outputs written over each other
			}
			if y.err == nil {
				r.Violate("torn", "torn output was accepted: %.300q", y.data)
				return
			}
			kit.Hit(prSolcTorn)
			continue
		}
		damaged := false
		for n := range o.parts {
			damaged = damaged || strings.HasPrefix(n, "damaged ")
		}
		if damaged && y.op.N == 1 && o.old {
			continue // texts are values too under the rules of version 8
		}
		if damaged {
			if y.err == nil {
				r.Violate("damaged", "damaged output was accepted: %.600s", y.data)
				return
			}
			kit.Hit(prSolcRefused)
			continue
		}
		if y.err != nil {
			r.Violate("refused", "sound output was refused: %v: %.600s", y.err, y.data)
			return
		}
		if len(o.parts) == 0 {
			kit.Hit(prSolcEmpty)
		}
		if w := solcDiff(y.cs, o.parts, o.old && y.op.N == 1); w != "" {
			r.Violate("contract", "%s; output: %.900s", w, y.data)
			return
		}
		if o.old {
			kit.Hit(prSolcOld)
		} else {
			kit.Hit(prSolcNew)
		}
	}
}

func solcDiff(cs map[string]*compiler.Contract, parts map[string]part, verbatim bool) string {
	var names []string
	for n := range parts {
		names = append(names, n)
	}
	sort.Strings(names)
	if len(cs) != len(parts) {
		return fmt.Sprintf("%d contracts instead of %d", len(cs), len(parts))
	}
	for _, n := range names {
		c, p := cs[n], parts[n]
		if c == nil {
			return "no contract " + n
		}
		abi, user, dev := p.abi, p.user, p.dev
		if verbatim {
			abi, user, dev = jsonText(abi), jsonText(user), jsonText(dev)
		}
		i := c.Info
		for _, x := range []struct {
			what      string
			got, want any
		}{
			{"code", c.Code, "0x" + p.bin}, {"run-time code", c.RuntimeCode, "0x" + p.run}, {"hashes", c.Hashes, p.hashes},
			{"source", i.Source, "src"}, {"language", i.Language, "Solidity"}, {"language version", i.LanguageVersion, "lang 1"},
			{"compiler version", i.CompilerVersion, "comp 2"}, {"compiler options", i.CompilerOptions, "opts"},
			{"source map", i.SrcMap, p.src}, {"run-time source map", i.SrcMapRuntime, p.srcRun}, {"metadata", i.Metadata, p.meta},
			{"ABI", i.AbiDefinition, abi}, {"user documentation", i.UserDoc, user}, {"developer documentation", i.DeveloperDoc, dev},
		} {
			if !reflect.DeepEqual(x.got, x.want) {
				return fmt.Sprintf("the %s of %s is %#v instead of %#v", x.what, n, x.got, x.want)
			}
		}
	}
	return ""
}
