"""Builds the overlay that puts the code under test into the simulator.

Everything the simulator needs is substituted at build time with
`go build -overlay`: nothing in /repo or in the Go installation is changed.

 * Go runtime: the goroutine scheduler, clocks and random sources (patched
   copies of a few files plus rt/zz_sim.go);
 * Go syscall/net/os: virtual file descriptors, dial hook, exit hook;
 * the packages under test: the same source with a yield point inserted before
   every statement (tool/instr);
 * the harness, as extra packages of the module.
"""
import json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildTrouble(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on")
    return e


def goroot():
    return subprocess.check_output(["go", "env", "GOROOT"], cwd=REPO, env=goenv(), text=True).strip()


def sub(text, old, new, where, count=1):
    if text.count(old) != count:
        raise BuildTrouble("patch anchor found %d times (want %d) in %s: %r" % (text.count(old), count, where, old[:80]))
    return text.replace(old, new)


def patch_runtime(src):
    """(relative path, new content) for every patched std file."""
    out = {}

    def get(rel):
        if rel not in out:
            out[rel] = open(os.path.join(src, rel)).read()
        return out[rel]

    def rep(rel, old, new, count=1):
        out[rel] = sub(get(rel), old, new, rel, count)

    P = "runtime/proc.go"
    rep(P, "func runqput(pp *p, gp *g, next bool) {\n",
        "func runqput(pp *p, gp *g, next bool) {\n\tif simOn && gp.simid != 0 {\n\t\tsimReady(gp)\n\t\treturn\n\t}\n")
    rep(P, "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n",
        "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif simOn && gp.simid != 0 {\n\t\tsimReady(gp)\n\t\treturn\n\t}\n")
    rep(P, "\t// Poll network.\n\t// This netpoll is only an optimization",
        "\tif simOn {\n\t\tif gp := simPick(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n"
        "\t\tif gp := simIdle(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n"
        "\t// Poll network.\n\t// This netpoll is only an optimization")
    rep(P, "\t\t// Only user goroutines inherit synctest groups and pprof labels.\n",
        "\t\tif simOn {\n\t\t\tsimBorn(newg)\n\t\t}\n\t\t// Only user goroutines inherit synctest groups and pprof labels.\n")
    rep(P, "\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n",
        "\tcasgstatus(gp, _Grunning, _Gdead)\n\tsimDied(gp)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n")
    rep(P, "\t\t\tracereleasemergeg(gp, gp.bubble.raceaddr())\n\t\t}\n\t\tracegoend()\n",
        "\t\t\tracereleasemergeg(gp, gp.bubble.raceaddr())\n\t\t}\n\t\tsimGoexitRace()\n\t\tracegoend()\n")
    rep(P, "\t// can't do anything that might move the G between Ms here.\n\tmcall(park_m)\n",
        "\t// can't do anything that might move the G between Ms here.\n\tsimParked(gp)\n\tmcall(park_m)\n")
    rep(P, "func goschedImpl(gp *g, preempted bool) {\n", "func goschedImpl(gp *g, preempted bool) {\n\tsimGosched(gp)\n")
    rep(P, "func goyield_m(gp *g) {\n", "func goyield_m(gp *g) {\n\tsimParked(gp)\n")
    rep(P, "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n")
    rep("runtime/runtime2.go", "\tvalgrindStackID uintptr\n}\n",
        "\tvalgrindStackID uintptr\n\n\tsimid, simk, simr, simf, simm uint32\n}\n")
    rep("runtime/time_nofake.go", "func nanotime() int64 {\n\treturn nanotime1()\n}",
        "func nanotime() int64 {\n\tif simOn {\n\t\treturn simNow\n\t}\n\treturn nanotime1()\n}")
    rep("runtime/rand.go", "\tglobalRand.state.Init(*seed)\n",
        "\tfor i := range seed {\n\t\tseed[i] = byte(i*37 + 11)\n\t}\n\tglobalRand.state.Init(*seed)\n")
    rep("runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif x, ok := simRandFor(4); ok {\n\t\treturn x\n\t}\n")
    rep("runtime/rand.go", "func maps_rand() uint64 {\n", "func maps_rand() uint64 {\n\tif simOn {\n\t\treturn simMapRand()\n\t}\n")
    # The same hash function in both builds, so that maps are walked in the same order.
    rep("internal/runtime/maps/runtime_alg.go", "\t// Install AES hash algorithms if the instructions needed are present.\n\tif (",
        "\tif false && (")
    rep("internal/runtime/maps/runtime_alg.go", "hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(i*0x1234567 + 0x7654321)")
    rep("runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n",
        "\t\tj, simok := simSelRand(uint32(norder + 1))\n\t\tif !simok {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n")
    # time.Now: an assembly routine on linux/amd64 is renamed and wrapped.
    rep("runtime/time_linux_amd64.s", "TEXT time·now<ABIInternal>(SB),NOSPLIT,$16-24",
        "TEXT runtime·simRealNow<ABIInternal>(SB),NOSPLIT,$16-24")
    get("runtime/timeasm.go")
    rep("runtime/timeasm.go", "//go:linkname time_now time.now\nfunc time_now() (sec int64, nsec int32, mono int64)\n",
        "func simRealNow() (sec int64, nsec int32, mono int64)\n\n"
        "//go:linkname time_now time.now\nfunc time_now() (sec int64, nsec int32, mono int64) {\n"
        "\tif simOn {\n\t\tw := simNow + simWallOff\n\t\treturn w / 1e9, int32(w % 1e9), simNow\n\t}\n\treturn simRealNow()\n}\n")
    out["runtime/zz_sim.go"] = open(os.path.join(VERIF, "rt/zz_sim.go")).read()
    extra = os.path.join(VERIF, "rt/patch_std.py")
    if os.path.exists(extra):
        ns = {"rep": rep, "get": get, "out": out, "VERIF": VERIF}
        exec(compile(open(extra).read(), extra, "exec"), ns)
    return out


def write_if(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(content)


def go_files(d):
    if not os.path.isdir(d):
        return []
    return sorted(f for f in os.listdir(d) if f.endswith(".go") and not f.endswith("_test.go"))


# The packages at the pinned commit: each area names those it instruments.
KNOWN = {"common", "common/compiler", "common/hexutil", "common/math", "common/mclock", "crypto",
         "crypto/randentropy", "crypto/sha3", "event", "internal/cmdtest", "log",
         "rlp/internal/rlpstruct", "rlp/rlpgen", "rpc"}


def with_new(pkgs):
    """pkgs and the packages they use that have been added to the repository."""
    out = list(pkgs)
    for pkg in out:
        d = os.path.join(REPO, pkg)
        for f in go_files(d):
            for rel in re.findall(r'"flychain/([^"\s]+)"', open(os.path.join(d, f), errors="replace").read()):
                if rel not in out and rel not in KNOWN and go_files(os.path.join(REPO, rel)):
                    out.append(rel)
    return out


def prepare(scratch, area, pkgs, lib=()):
    """Write the overlay for one area.

    lib: (command, name, shim directory) of commands built as packages beside
    themselves, so that the harness can import them."""
    ov = {}
    root = goroot()
    src = os.path.join(root, "src")
    for rel, text in patch_runtime(src).items():
        dst = os.path.join(scratch, "std", rel)
        write_if(dst, text)
        ov[os.path.join(src, rel)] = dst
    # Instrument the packages under test.
    tool = os.path.join(scratch, "instr")
    run(["go", "build", "-o", tool, "main.go"], os.path.join(VERIF, "tool/instr"))
    pairs = []
    for pkg in with_new(pkgs):
        d = os.path.join(REPO, pkg)
        for f in go_files(d):
            dst = os.path.join(scratch, "repo", pkg, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            pairs.append("%s=%s" % (os.path.join(d, f), dst))
            ov[os.path.join(d, f)] = dst
    run([tool] + pairs, REPO)
    for cmd, name, shim in lib:
        to = os.path.join(os.path.dirname(os.path.join(REPO, cmd)), name)
        for f in go_files(os.path.join(REPO, cmd)):
            dst = os.path.join(scratch, "repo", cmd, f)
            # What the command uses to load packages runs another program.
            text = open(dst).read().replace('"golang.org/x/tools/go/packages"', '"flychain/zzverifsim/%s/packages"' % area)
            write_if(dst + ".lib.go", re.sub(r"(?m)^package main\b", "package " + name, text, count=1))
            ov[os.path.join(to, f)] = dst + ".lib.go"
        for f in go_files(os.path.join(VERIF, "sim", shim)):
            ov[os.path.join(to, "zz_" + f)] = os.path.join(VERIF, "sim", shim, f)
    # Harness packages.
    for sub_ in ("kit", area):
        top = os.path.join(VERIF, "sim", sub_)
        for d, _, _ in os.walk(top):
            for f in go_files(d):
                ov[os.path.join(REPO, "zzverifsim", sub_, os.path.relpath(d, top), f).replace("/./", "/")] = os.path.join(d, f)
    ovf = os.path.join(scratch, "overlay-%s.json" % area)
    with open(ovf, "w") as f:
        json.dump({"Replace": ov}, f, indent=1)


def compile_(scratch, area, race):
    out = os.path.join(scratch, "sim-%s%s" % (area, "-race" if race else ""))
    cmd = ["go", "build", "-overlay", os.path.join(scratch, "overlay-%s.json" % area), "-o", out]
    if race:
        cmd += ["-race"]
    run(cmd + ["./zzverifsim/" + area], REPO)
    return out


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=goenv(), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildTrouble("%s failed:\n%s" % (" ".join(cmd[:6]), p.stdout[-6000:]))


if __name__ == "__main__":
    prepare(sys.argv[1], sys.argv[2], sys.argv[3].split(","))
    print(compile_(sys.argv[1], sys.argv[2], len(sys.argv) > 4))
