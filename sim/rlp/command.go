//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"regexp"
	"strings"

	"flychain/rlp/zzrlpgen"
	"flychain/zzverifsim/kit"
	"flychain/zzverifsim/rlp/packages"
)

// C33: the generator command, run again and again while the program it is for
// is edited, on a faulty disk, and killed at any time. Step i is one run of
// the command; its client i*10 edits the program before, i*10+2 meanwhile,
// i*10+9 kills it.
//
//	op "edit": A directory, B stall, N version*16+damage
//	op "gen":  A directory | type<<2, B stall while loading, N flags: see genArgs
//	op "crash": B stall
func init() {
	kit.Register(&kit.Prop{ID: "C33", Slow: true, Steps: 3000, StepCap: 3000000, Gen: cmdGen, Exec: cmdExec})
}

var (
	prCmdFile  = kit.Ctr("probe.code_written_to_file")
	prCmdRel   = kit.Ctr("probe.output_named_relatively")
	prCmdOut   = kit.Ctr("probe.code_written_to_standard_output")
	prCmdAgain = kit.Ctr("probe.generated_again_over_earlier_output")
	prCmdStale = kit.Ctr("probe.generated_beside_outdated_output")
	prCmdLoad  = kit.Ctr("probe.broken_program_refused")
	prCmdType  = kit.Ctr("probe.type_refused")
	prCmdUsage = kit.Ctr("probe.wrong_flags_refused")
	prCmdWrite = kit.Ctr("probe.failed_write_reported")
	prCmdTorn  = kit.Ctr("probe.output_cut_short")
	prCmdBlock = kit.Ctr("probe.earlier_output_cut_short_reported")
	prCmdMean  = kit.Ctr("probe.program_edited_meanwhile")
	faLoader   = kit.Ctr("fault.loading_packages_failed")
	faNoRLP    = kit.Ctr("fault.package_rlp_not_loaded")
)

const nDamages = 8

var progDirs = []string{kit.DiskRoot + "prog", kit.DiskRoot + "prog/lib"}

// A state of the program in a directory.
type progState struct {
	seq  uint64
	src  string
	pkg  *types.Package // nil if it does not compile
	errs []string
	none bool
}

type cmdRun struct {
	op       kit.Op
	args     []string
	dir      int
	typ      string
	out      string // "" is standard output
	enc, dec bool
	usage    bool
	inv, ret uint64
	code     int // -1: it did not come to its end
	proc     int
}

var cmd struct {
	states [2][]progState
	cur    *cmdRun
}

func cmdGen(g *kit.Gen) {
	steps := g.Range(1, 6)
	g.Set("steps", int64(steps))
	g.Set("base", int64(g.U64()%(1<<40)))
	g.Set("lat", g.Pick(0, 0, 0, 1, 2))
	if g.P(1, 3) {
		g.Set("eintr", g.Pick(0, 100, 400))
		g.Set("short", g.Pick(0, 200, 600))
	}
	if g.P(1, 4) {
		g.Set("eio", g.Pick(0, 50, 200))
		g.Set("openerr", g.Pick(0, 50, 200))
		g.Set("cap", g.Pick(0, 0, 10, 150, 600, 2000))
	}
	v := int64(2)
	edit := func(c int) {
		dmg := int64(0)
		if g.P(1, 3) {
			dmg = int64(g.N(nDamages))
		}
		g.Op(c, "edit", int64(g.N(5)/4), int64(g.N(25)), v<<4|dmg)
		if g.P(3, 4) {
			v++
		}
	}
	for i := 0; i < steps; i++ {
		if i > 0 && g.P(1, 2) {
			edit(i * 10)
		}
		f := int64(g.N(1 << 20))
		g.Op(i*10+1, "gen", int64(g.N(5)/4)|int64(g.Pick(0, 0, 0, 1, 1, 2, 3))<<2, int64(g.N(25)), f)
		if g.P(1, 4) {
			edit(i*10 + 2)
		}
		if g.P(1, 5) {
			g.Op(i*10+9, "crash", 0, g.Pick(int64(g.N(40)), int64(g.N(400))))
		}
	}
}

// program is version v of the program in a directory.
func program(base uint64, dir int, v, dmg int64) (s progState) {
	x := &rnd{base + uint64(v)*7919 + uint64(dir)*104729}
	w := newWorld(x)
	w.noNamed = true
	for i := 0; i < 2; i++ {
		w.structOf(1, fmt.Sprintf("M%d", i), false)
	}
	// One message is part of the other.
	w.decl("Both", "type Both struct {\n\tA M0\n\tB []M1\n\tC uint64 `rlp:\"optional\"`\n}")
	bad := badTypes[x.n(len(badTypes))]
	w.decl("Bad", "type Bad "+bad[0]+"\n"+bad[1])
	w.decl("NoType", "var NoType M1")
	w.decl("NoTypeFn", "func NoTypeFn() (m M0) { return }")
	w.decl("NoTypeVal", "const NoTypeVal = 1")
	src := w.source()
	switch dmg {
	case 1: // cut short
		src = src[:x.n(len(src))]
	case 2:
		src += "\nvar broken = undefinedName\n"
	case 3:
		src += "\ntype Gone struct { A NoSuchType }\n"
	case 4: // a message is gone
		src = strings.ReplaceAll(src, "M0", "M9")
	case 5: // so is the file
		s.none = true
	case 6:
		src = strings.Replace(src, "package test\n", "package test\n\nimport \"no/such/package\"\n\nvar _ = pkg.X\n", 1)
	case 7: // other comments and layout only
		src = strings.ReplaceAll(strings.Replace(src, "package test\n", "// A comment\npackage test\n", 1), "\nvar ", "\n\n\nvar ")
	}
	s.src = src
	p := load(map[string]string{"types.go": src}, s.none, nil)
	for _, e := range p.Errors {
		s.errs = append(s.errs, e.Msg)
	}
	if len(s.errs) == 0 {
		s.pkg = p.Types
	}
	return s
}

// load is what loading a package gives, from its files.
func load(files map[string]string, none bool, tags []string) *packages.Package {
	p := &packages.Package{ID: "example/test", PkgPath: "example/test", Name: "test", Fset: token.NewFileSet()}
	fail := func(kind packages.ErrorKind, format string, a ...any) {
		p.Errors = append(p.Errors, packages.Error{Pos: "types.go:1:1", Msg: fmt.Sprintf(format, a...), Kind: kind})
		p.IllTyped = true
	}
	for _, n := range sortedKeys(files) {
		if none && n == "types.go" {
			continue
		}
		if !included(files[n], tags) {
			p.IgnoredFiles = append(p.IgnoredFiles, n)
			continue
		}
		p.GoFiles = append(p.GoFiles, n)
		f, err := parser.ParseFile(p.Fset, n, files[n], parser.ParseComments)
		if err != nil {
			fail(packages.ParseError, "%v", err)
		}
		if f != nil && f.Name != nil {
			p.Syntax = append(p.Syntax, f)
		}
	}
	p.CompiledGoFiles = p.GoFiles
	if len(p.GoFiles) == 0 {
		fail(packages.ListError, "no Go files in the directory")
	}
	p.TypesInfo = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: &world{pkgs: basePkgs}, Error: func(err error) {
		var te types.Error
		if errors.As(err, &te) {
			p.TypeErrors = append(p.TypeErrors, te)
		}
		fail(packages.TypeError, "%v", err)
	}}
	p.Types, _ = conf.Check(p.PkgPath, p.Fset, p.Syntax, p.TypesInfo)
	return p
}

func sortedKeys(m map[string]string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

// included reports whether the build constraints at the top of a file hold.
func included(text string, tags []string) bool {
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l != "" && !strings.HasPrefix(l, "//") {
			return true
		}
		if !constraint.IsGoBuild(l) {
			continue
		}
		e, err := constraint.Parse(l)
		if err != nil {
			continue
		}
		return e.Eval(func(tag string) bool {
			for _, t := range tags {
				if t == tag {
					return true
				}
			}
			return tag == "linux" || tag == "amd64" || tag == "gc"
		})
	}
	return true
}

// buildTags reads the flags for the go command.
func buildTags(flags []string) (tags []string) {
	for i, f := range flags {
		f = strings.TrimPrefix(strings.TrimPrefix(f, "-"), "-")
		v, ok := strings.CutPrefix(f, "tags=")
		if f == "tags" && i+1 < len(flags) {
			v, ok = flags[i+1], true
		}
		if ok {
			tags = strings.FieldsFunc(v, func(c rune) bool { return c == ',' || c == ' ' })
		}
	}
	return tags
}

// loader is the go command and what reads its answer.
func loader(fault int64, delay int64) func(cfg *packages.Config, patterns []string) ([]*packages.Package, error) {
	return func(cfg *packages.Config, patterns []string) (l []*packages.Package, err error) {
		stall(delay)
		if fault == 1 {
			kit.Hit(faLoader)
			return nil, errors.New("go command: signal: killed")
		}
		if fault == 4 {
			kit.Hit(faLoader)
			return nil, nil
		}
		dir := path.Join(progDirs[0], cfg.Dir)
		if path.IsAbs(cfg.Dir) {
			dir = path.Clean(cfg.Dir)
		}
		if dir != progDirs[0] && dir != progDirs[1] {
			return nil, fmt.Errorf("chdir %s: no such file or directory", cfg.Dir)
		}
		for _, pat := range patterns {
			var p *packages.Package
			switch {
			case pat == "rlp" && fault == 2:
				kit.Hit(faNoRLP)
				p = &packages.Package{ID: pat, PkgPath: pat, Errors: []packages.Error{{Msg: "package rlp is not in std"}}, IllTyped: true}
			case pat == "rlp":
				p = &packages.Package{ID: pat, PkgPath: pat, Name: pat, Fset: baseFset, Types: basePkgs[pat]}
			case pat == "." || pat == "./" || pat == dir:
				if fault == 3 {
					kit.Hit(faLoader)
					continue
				}
				files := map[string]string{}
				for _, n := range kit.DiskNames(dir) {
					if !strings.HasSuffix(n, ".go") {
						continue
					}
					b, err := os.ReadFile(dir + "/" + n)
					if errors.Is(err, os.ErrNotExist) {
						continue // it has just been replaced
					}
					if err != nil {
						return nil, fmt.Errorf("go command: %v", err)
					}
					files[n] = string(b)
				}
				stall(delay)
				p = load(files, false, buildTags(cfg.BuildFlags))
			default:
				p = &packages.Package{ID: pat, PkgPath: pat, Errors: []packages.Error{{Msg: "package " + pat + " is not in std"}}, IllTyped: true}
			}
			if cfg.Mode&packages.NeedName == 0 {
				p.Name, p.PkgPath = "", ""
			}
			if cfg.Mode&packages.NeedTypes == 0 {
				p.Types, p.Fset = nil, nil
			}
			if cfg.Mode&packages.NeedSyntax == 0 {
				p.Syntax = nil
			}
			if cfg.Mode&packages.NeedTypesInfo == 0 {
				p.TypesInfo = nil
			}
			l = append(l, p)
		}
		return l, nil
	}
}

// cmdTypes are what the command is asked for: the last ones are no types.
var cmdTypes = []string{"M0", "M1", "Both", "Bad", "NoSuchType", "NoType", "NoTypeFn", "NoTypeVal"}

// genArgs makes a command line.
func (c *cmdRun) genArgs() {
	x := &rnd{uint64(c.op.N)*31 + 7}
	c.dir = int(c.op.A & 3 % 2)
	c.typ = cmdTypes[(c.op.A>>2)%int64(len(cmdTypes))]
	add := func(name, v string) {
		dash := "-"
		if x.n(4) == 0 {
			dash = "--"
		}
		if x.n(3) == 0 || v == "true" || v == "false" {
			if v == "true" && x.n(2) == 0 {
				c.args = append(c.args, dash+name)
				return
			}
			c.args = append(c.args, dash+name+"="+v)
			return
		}
		c.args = append(c.args, dash+name, v)
	}
	parts := []func(){
		func() {
			switch k := x.n(3); {
			case c.dir == 1 && k == 0:
				add("dir", progDirs[1])
			case c.dir == 1 && k == 1:
				add("dir", "./lib")
			case c.dir == 1:
				add("dir", "lib")
			case k == 0:
				add("dir", ".")
			case k == 1:
				add("dir", progDirs[0])
			}
		},
		func() { add("type", c.typ) },
		func() {
			switch k := x.n(8); {
			case k == 0:
				add("out", "-")
			case k == 1:
			case k == 2:
				c.out = kit.DiskRoot + "elsewhere.go"
				add("out", c.out)
			default:
				// Named relative to where the command runs, which is not always
				// where the program is.
				c.out = progDirs[c.dir] + "/gen_" + strings.ToLower(c.typ) + ".go"
				name := c.out
				if x.n(3) == 0 {
					kit.Hit(prCmdRel)
					name = strings.TrimPrefix(name, progDirs[0]+"/")
					if x.n(2) == 0 {
						name = "./" + name
					}
				}
				add("out", name)
			}
		},
		func() {
			c.enc = x.n(4) > 0
			if !c.enc || x.n(3) == 0 {
				add("encoder", fmt.Sprint(c.enc))
			}
		},
		func() {
			c.dec = x.n(3) > 0
			if c.dec || x.n(3) == 0 {
				add("decoder", fmt.Sprint(c.dec))
			}
		},
	}
	for i := range parts {
		j := i + x.n(len(parts)-i)
		parts[i], parts[j] = parts[j], parts[i]
		parts[i]()
	}
	if x.n(16) == 0 {
		c.usage = true
		at := 0
		bad := []string{"-nosuchflag", "-decoder=maybe", "-encoder=2", "-type"}[x.n(4)]
		if bad == "-type" || x.n(2) == 0 {
			at = len(c.args)
		}
		c.args = append(c.args[:at:at], append([]string{bad}, c.args[at:]...)...)
	}
}

//go:norace
func (c *cmdRun) begin() { c.inv = kit.Log(1, int64(c.proc), 0, 0) }

//go:norace
func (c *cmdRun) end(code int) {
	if kit.DiskProc() != c.proc {
		return // it has been killed
	}
	c.ret = kit.Log(2, int64(c.proc), int64(code), 0)
	c.code = code
	kit.DiskExit()
}

//go:norace
func cmdExit(code int) { cmd.cur.end(code) }

//go:norace
func cmdCrash(c *cmdRun) {
	if kit.DiskProc() == c.proc {
		c.ret = kit.Log(3, int64(c.proc), 0, 0)
		kit.DiskCrash()
	}
}

//go:norace
func cmdEdit(dir int, s progState) {
	name := progDirs[dir] + "/types.go"
	s.seq = kit.Log(4, int64(dir), 0, 0)
	if s.none {
		kit.DiskRemove(name)
	} else {
		kit.DiskReplace(name, []byte(s.src))
	}
	cmd.states[dir] = append(cmd.states[dir], s)
}

func cmdExec(r *kit.Run) {
	base := uint64(r.P("base"))
	cmd.states = [2][]progState{}
	for d := range progDirs {
		cmdEdit(d, program(base, d, int64(d), 0))
	}
	kit.DiskTrack(kit.DiskRoot + "none")
	kit.OnExit(cmdExit)
	kit.DiskCwd = progDirs[0]
	defer func() { kit.DiskCwd = "" }()
	outF, errF := os.Stdout, os.Stderr
	defer func() { os.Stdout, os.Stderr = outF, errF }()
	policy := kit.DiskFaults{Short: int(r.P("short")), EINTR: int(r.P("eintr")), EIO: int(r.P("eio")),
		OpenErr: int(r.P("openerr")), Capacity: int(r.P("cap")), Latency: int(r.P("lat"))}
	for i := 0; i <= int(r.P("steps")); i++ {
		last := i == int(r.P("steps"))
		var ops []kit.Op
		if last {
			// The faults are over: whatever was left behind, code can be generated.
			policy = kit.DiskFaults{}
			v := program(base, 0, 1000, 0)
			cmdEdit(0, v)
			for k := int64(0); k < 3; k++ {
				ops = append(ops, kit.Op{K: "gen", A: k << 2, N: r.P("base")%1000*3 + k})
			}
		} else {
			ops = r.Ops(i*10 + 1)
			for _, o := range r.Ops(i * 10) {
				cmdEdit(int(o.A%2), program(base, int(o.A%2), o.N>>4, o.N&15))
			}
		}
		for _, o := range ops {
			c := &cmdRun{op: o, code: -1, proc: kit.DiskProc()}
			c.genArgs()
			if !cmdOnce(r, i, c, policy, base) {
				return
			}
		}
	}
}

func cmdOnce(r *kit.Run, i int, c *cmdRun, policy kit.DiskFaults, base uint64) bool {
	cmd.cur = c
	stdout, stderr := fmt.Sprintf("%sstdout%d", kit.DiskRoot, c.proc), fmt.Sprintf("%sstderr%d", kit.DiskRoot, c.proc)
	before := map[string]string{}
	for _, d := range append(progDirs, strings.TrimSuffix(kit.DiskRoot, "/")) {
		for _, n := range kit.DiskNames(d) {
			if n != "types.go" {
				b, _ := kit.DiskGet(d + "/" + n)
				before[d+"/"+n] = string(b)
			}
		}
	}
	fault := int64(0)
	if policy != (kit.DiskFaults{}) || r.P("base")%3 == 0 {
		if k := c.op.N % 40; k < 5 && i < int(r.P("steps")) {
			fault = k
		}
	}
	packages.Loader = loader(fault, c.op.B)
	kit.DiskSetFaults(kit.DiskFaults{})
	_, hard0 := kit.DiskStates()
	nh := len(hard0)
	opened := make(chan bool)
	r.GoProcess("rlpgen", func() {
		kit.DiskJoin(c.proc)
		var err1, err2 error
		os.Stdout, err1 = os.OpenFile(stdout, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
		os.Stderr, err2 = os.OpenFile(stderr, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
		if err1 != nil || err2 != nil {
			panic(fmt.Sprint("HARNESS: ", err1, err2))
		}
		kit.DiskSetFaults(policy)
		c.begin()
		close(opened)
		defer kit.Publish()
		zzrlpgen.RunMain(c.args...)
		c.end(0)
	})
	edits := r.Ops(i*10 + 2)
	if len(edits) > 0 {
		var l []progState
		for _, o := range edits {
			l = append(l, program(base, int(o.A%2), o.N>>4, o.N&15))
		}
		r.Go("editor", func() {
			defer kit.Publish()
			<-opened
			for k, o := range edits {
				stall(o.B)
				cmdEdit(int(o.A%2), l[k])
			}
		})
	}
	for _, o := range r.Ops(i*10 + 9) {
		r.Go("crash", func() {
			<-opened
			stall(o.B)
			cmdCrash(c)
			kit.Publish()
		})
	}
	if !r.Drain() || !r.MustEnd("running the generator command") {
		return false
	}
	_, hard := kit.DiskStates()
	return cmdCheck(r, c, before, stdout, stderr, len(hard) > nh, fault)
}

var generatedRe = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)

// split parts an output into the lines of comments at its top and the rest.
func split(out string) (top []string, body string) {
	for out != "" {
		l, rest, _ := strings.Cut(out, "\n")
		if l != "" && !strings.HasPrefix(l, "//") && (l != "/" || rest != "") { // "/" begins a comment cut short
			return top, out
		}
		top = append(top, l)
		out = rest
	}
	return top, ""
}

type wanted struct {
	code string
	err  error
	errs []string
}

func (c *cmdRun) check(out string, want []wanted) string {
	top, body := split(out)
	var why string
	for _, w := range want {
		if w.code == "" {
			continue
		}
		if body == w.code {
			why = ""
			break
		}
		why = fmt.Sprintf("it is not the code for the type, which is\n%s", w.code)
	}
	if why != "" {
		return why
	}
	marked := false
	for _, l := range top {
		marked = marked || generatedRe.MatchString(l)
	}
	switch {
	case !marked:
		return "it is not marked as generated"
	case !included(out, nil):
		return "it is left out of the program"
	case included(out, []string{"norlpgen"}):
		return "it is not left out when generating again"
	}
	return ""
}

func cmdCheck(r *kit.Run, c *cmdRun, before map[string]string, stdout, stderr string, faulty bool, fault int64) bool {
	bad := func(format string, a ...any) bool {
		r.Violate("command", "rlpgen %s: %s", strings.Join(c.args, " "), fmt.Sprintf(format, a...))
		return false
	}
	// What the program was meanwhile.
	var seen []progState
	for _, s := range cmd.states[c.dir] {
		if s.seq < c.inv {
			seen = nil
		}
		if s.seq < c.ret {
			seen = append(seen, s)
		}
	}
	if len(seen) > 1 {
		kit.Hit(prCmdMean)
	}
	var want []wanted
	good := false
	for _, s := range seen {
		w := wanted{errs: s.errs}
		if s.pkg != nil {
			code, err := zzrlpgen.NewGenerator(basePkgs["rlp"]).Generate(s.pkg.Scope(), c.typ, c.enc, c.dec)
			w.code, w.err = string(code), err
			good = good || err == nil
		}
		want = append(want, w)
	}
	if c.usage || fault != 0 {
		good = false
	}
	// An output cut short before it says that it is to be left out is a broken
	// file of the program.
	torn := false
	for p, b := range before {
		torn = torn || path.Dir(p) == progDirs[c.dir] && included(b, []string{"norlpgen"})
	}
	outB, _ := kit.DiskGet(stdout)
	errB, _ := kit.DiskGet(stderr)
	text := string(errB)
	to := stdout
	if c.out != "" {
		to = c.out
	}
	now := map[string]string{stdout: string(outB)}
	for _, d := range append(progDirs, strings.TrimSuffix(kit.DiskRoot, "/")) {
		for _, n := range kit.DiskNames(d) {
			p := d + "/" + n
			if b, ok := kit.DiskGet(p); ok && n != "types.go" && p != stderr {
				now[p] = string(b)
			}
		}
	}
	// Nothing else is written.
	for p, b := range now {
		if p == to {
			continue
		}
		if old, ok := before[p]; b != old && (c.code == 0 || ok) {
			return bad("it also wrote %s: %q", p, clip(b))
		}
	}
	for p := range before {
		if _, ok := now[p]; !ok && p != to {
			return bad("it removed %s", p)
		}
	}
	old, existed := before[to]
	got, exists := now[to]
	if c.code == 0 {
		if why := c.check(got, want); why != "" || !exists {
			return bad("it succeeded (disk faults: %v), but of its output %q %s", faulty, got, why)
		}
		if !good {
			return bad("it succeeded, but should have been refused (loading failed: %v, wrong flags: %v)", fault, c.usage)
		}
		if c.out == "" {
			kit.Hit(prCmdOut)
		} else {
			kit.Hit(prCmdFile)
			if existed {
				kit.Hit(prCmdAgain)
			}
		}
		for p, b := range before {
			if p != to && strings.HasPrefix(p, progDirs[c.dir]+"/") && b != "" {
				kit.Hit(prCmdStale)
				break
			}
		}
		return true
	}
	// A failure leaves the output alone, unless writing it failed.
	if got != old || exists != existed && c.out != "" {
		if !faulty && c.code >= 0 {
			return bad("it failed with %q, but left the output %q in place of %q", clip(text), clip(got), clip(old))
		}
		_, body := split(got)
		ok := body == ""
		for _, w := range want {
			ok = ok || w.code != "" && strings.HasPrefix(w.code, body)
		}
		if !ok {
			return bad("it was interrupted and left what is no part of the code for the type: %q", got)
		}
		kit.Hit(prCmdTorn)
	}
	if c.code < 0 {
		return true
	}
	if faulty {
		kit.Hit(prCmdWrite)
		return true
	}
	if good && torn {
		kit.Hit(prCmdBlock)
		good = false
		want = []wanted{{errs: []string{"gen_"}}}
	}
	if good && len(seen) == 1 {
		return bad("it failed with %q", clip(text))
	}
	if strings.TrimSpace(text) == "" {
		return bad("it failed with status %d and did not say why", c.code)
	}
	if c.usage {
		kit.Hit(prCmdUsage)
		return true
	}
	if fault != 0 {
		return true
	}
	if len(seen) > 1 {
		return true
	}
	w := want[0]
	if torn {
		w = wanted{errs: append([]string{"gen_"}, w.errs...)}
	}
	if w.err != nil {
		if !strings.Contains(text, w.err.Error()) && !strings.Contains(text, c.typ) {
			return bad("the type %s was refused (%v), but it said %q", c.typ, w.err, clip(text))
		}
		kit.Hit(prCmdType)
		return true
	}
	for _, e := range w.errs {
		if strings.Contains(text, e) {
			kit.Hit(prCmdLoad)
			return true
		}
	}
	return bad("the program is broken (%v), but it said %q", w.errs, clip(text))
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}
