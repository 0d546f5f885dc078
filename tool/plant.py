#!/usr/bin/env python3
"""Development aid: make and verify planted bugs.

  plant.py make ID < spec      spec: meta lines, edits, demo.go (see below)
  plant.py verify [ID...]      demo 0 on a clean copy, builds, stable tests pass, demo nonzero with the patch
  plant.py check [ID...]       runs the property's check (and others) against a patched copy

A spec is: "property: C01", "needs: ...", "breaks: ..." lines, then "@@ file" sections holding
"old\n====\nnew" hunks separated by "####", then "@@ demo" and the Go program.
"""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")

DEMO = '''#!/bin/bash
# Run with the repository as working directory: 0 if the property held, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
printf '{"Replace":{"%s/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 2
cd "$tmp" && timeout 120 ./demo
'''


# For what only a test inside the package can reach: the demo takes the place of a test file.
TEST = DEMO[:DEMO.index("printf")] + '''printf '{"Replace":{"%s/AT":"%s/demo.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
DEMO_TMP="$tmp" timeout 200 go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run TestDemo ./DIR
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)


class Copy:
    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix="pl.", dir="/tmp")
        self.d = os.path.join(self.top, "repo")
        shutil.copytree("/repo", self.d, symlinks=True)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.top)


def make(pid):
    txt = sys.stdin.read()
    head, *secs = txt.split("\n@@ ")
    meta = dict(l.split(": ", 1) for l in head.strip().splitlines())
    out = os.path.join(SEED, pid)
    os.makedirs(out, exist_ok=True)
    with Copy() as d:
        for s in secs:
            name, body = s.split("\n", 1)
            if name.startswith("demo"):
                at = (name.split() + ["zzdemo/main.go"])[1]
                open(os.path.join(out, "demo.go"), "w").write(body.rstrip("\n") + "\n")
                continue
            p = os.path.join(d, name)
            t = open(p).read()
            for h in body.strip("\n").split("\n####\n"):
                old, new = h.split("\n====\n") if "\n====\n" in h else (h[:-5], "")
                if t.count(old) != 1:
                    sys.exit("%s: anchor occurs %d times in %s: %s" % (pid, t.count(old), name, old))
                t = t.replace(old, new)
            open(p, "w").write(t)
        r = sh(["git", "diff"], d)
        open(os.path.join(out, "patch.diff"), "w").write(r.stdout)
    text = TEST.replace("DIR", os.path.dirname(at)) if at.endswith("_test.go") else DEMO.replace("zzdemo/main.go", "AT").replace("./zzdemo", "./" + os.path.dirname(at))
    open(os.path.join(out, "demo.sh"), "w").write(text.replace("AT", at))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)


def ids(a):
    return a or sorted(os.listdir(SEED))


def tests(d):
    r = sh(["bash", "-c", "go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vxE 'flychain/(rpc|internal/cmdtest)')"], d)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            o = json.loads(l)
        except ValueError:
            continue
        if o.get("Action") == "pass" and o.get("Test"):
            ok.add(o["Package"] + "/" + o["Test"])
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


def verify(pid):
    src = os.path.join(SEED, pid)
    with Copy() as d:
        demo = os.path.join(os.path.dirname(d), "demo")
        os.mkdir(demo)
        for f in os.listdir(src):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(src, f), demo)
        r = sh(["bash", os.path.join(demo, "demo.sh")], d)
        if r.returncode:
            return "BAD: demo fails on the clean tree: %s %s" % (r.stdout[-500:], r.stderr[-800:])
        r = sh(["git", "apply", os.path.join(src, "patch.diff")], d)
        if r.returncode:
            return "BAD: patch: " + r.stderr
        r = sh(["bash", "-c", "go build $(go list -e ./... | grep -vxE 'flychain/(rpc|internal/cmdtest)')"], d)
        if r.returncode:
            return "BAD: build: " + r.stderr
        for _ in range(3):
            miss = tests(d)
            if miss:
                return "BAD: tests fail: %s" % miss
        res = []
        for _ in range(3):
            r = sh(["bash", os.path.join(demo, "demo.sh")], d)
            res.append(r.returncode)
        if 0 in res:
            return "BAD: demo with the patch: %s %s" % (res, r.stdout[-300:])
        return "ok: demo says %s" % (r.stdout + r.stderr).strip()[:200]


def check(pid, extra=(), secs="8"):
    meta = json.load(open(os.path.join(SEED, pid, "meta.json")))
    with Copy() as d:
        r = sh(["git", "apply", os.path.join(SEED, pid, "patch.diff")], d)
        assert not r.returncode, r.stderr
        out = []
        for q in [meta["property"], *extra]:
            r = subprocess.run(["python3", os.path.join(VERIF, "check.py"), q, "--secs", secs], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d))
            v = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith(("check ", "built", "minimised"))]
            out.append("%s rc %d %s" % (q, r.returncode, " // ".join(v)[:400]))
        return "\n   ".join(out)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(args[0])
        print(args[0], verify(args[0]))
    elif cmd == "verify":
        for i in ids(args):
            print(i, verify(i), flush=True)
    elif cmd == "check":
        for i in ids(args):
            print(i, check(i), flush=True)
