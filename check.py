#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation.

    check.py C01                 quick (or $VERIF_TIER) exploration
    check.py C01 --thorough
    check.py C01 --replay FILE   replay a reported violation

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Anything else: the check itself failed (build, watchdog, non-determinism).
"""
import argparse, concurrent.futures, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tool"))
sys.path.insert(0, VERIF)
import overlay
from props import PROPS

RACE_BASE = 1 << 40
EV_DIR = os.path.join(VERIF, "evidence")


def log(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


class Sim:
    def __init__(self, prop, seed, scratch):
        self.prop, self.seed, self.scratch = prop, seed, scratch
        self.meta = PROPS[prop]
        self.bin = {}
        self.lock = threading.Lock()
        self.n = 0

    def env(self, race):
        e = dict(os.environ)
        e["GOMAXPROCS"] = "1"
        e["GODEBUG"] = "asyncpreemptoff=1"
        e["GOTRACEBACK"] = "all"
        e["GOGC"] = "off"
        e["TZ"] = "UTC"
        e["VERIF_KNOWN"] = ",".join(k[2] for k in load_known() if k[0] == self.prop and k[1] == "counted")
        if race:
            e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
        return e

    def build(self):
        t0 = time.time()
        area, pkgs = self.meta["area"], self.meta["pkgs"]
        errs = []
        overlay.prepare(self.scratch, area, pkgs, self.meta.get("lib", ()))

        def one(race):
            try:
                self.bin[race] = overlay.compile_(self.scratch, area, race)
            except Exception as e:  # noqa
                errs.append(e)
        ts = [threading.Thread(target=one, args=(r,)) for r in ((False, True) if self.meta.get("race", True) else (False,))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        self.build_s = time.time() - t0

    def tmp(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, "t%d%s" % (self.n, suffix))

    def run(self, race, args, timeout, trace=None):
        cmd = [self.bin[race], "-prop", self.prop, "-seed", str(self.seed)] + args
        if trace:
            cmd += ["-trace", trace]
        p = subprocess.Popen(cmd, env=self.env(race), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.scratch,
                             text=True, errors="replace", start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            return "timeout", out, err
        return p.returncode, out, err

    @staticmethod
    def tagged(out, tag):
        r = []
        for line in out.splitlines():
            if line.startswith(tag + " "):
                try:
                    r.append(json.loads(line[len(tag) + 1:]))
                except ValueError:
                    pass
        return r

    def classify(self, rc, out, err):
        """-> None (held) or (kind, message); raises CheckError on trouble."""
        if rc == 0:
            return None
        if rc == "timeout":
            return "hang", "the program computes forever without reaching a scheduling point"
        if "HARNESS-ERROR" in err or rc == 4:
            raise CheckError("harness error: " + err[-2000:])
        if rc == 1:
            for tag in ("FOUND", "OUTCOME"):
                for o in self.tagged(out, tag):
                    return o["kind"], o["msg"]
        if rc == 66 and "DATA RACE" in err:
            return "race", race_summary(err)
        if rc == 2 and ("panic:" in err or "fatal error:" in err):
            if "sim run queue overflow" in err or "SimRun:" in err:
                raise CheckError(err[-2000:])
            k = "crash"
            i = min(x for x in (err.find("panic:"), err.find("fatal error:")) if x >= 0)
            return k, err[i:i + 1500]
        if rc == 3 and "EXIT-ESCAPE" in err:
            return "exit", err[-800:]
        raise CheckError("simulator ended with %r\n%s\n%s" % (rc, out[-500:], err[-3000:]))

    def try_plan(self, race, plan, timeout=30):
        f = self.tmp(".plan.json")
        with open(f, "w") as h:
            json.dump(plan, h)
        try:
            rc, out, err = self.run(race, ["-replay", f], timeout)
            return self.classify(rc, out, err)
        except CheckError:
            return ("error", "")
        finally:
            os.unlink(f)


def race_summary(err):
    i = err.find("WARNING: DATA RACE")
    return err[i:i + 1800]


def read_trace(path):
    with open(path, "rb") as f:
        b = f.read()
    idx, n, ov, _ = struct.unpack_from("<QQQQ", b, 0)
    sched = []
    for i in range(min(n, (len(b) - 64) // 24)):
        g, k, to, _, tick = struct.unpack_from("<IIIIq", b, 64 + 24 * i)
        sched.append([g, k, to, tick])
    return idx, sched, bool(ov)


def find_violation(sim, race, rc, out, err, trace, frm, stride):
    """Turn a failed worker into (plan, race, (kind,msg)), confirmed in a fresh process."""
    first = sim.classify(rc, out, err)
    if first is None:
        return None
    idx, sched, ov = read_trace(trace)
    rc2, out2, _ = sim.run(race, ["-genplan", "-from", str(idx)], 60)
    plans = sim.tagged(out2, "PLAN")
    if rc2 != 0 or not plans:
        raise CheckError("cannot regenerate plan %d" % idx)
    base = plans[0]
    cands = []
    if not ov:
        p = json.loads(json.dumps(base))
        p["schedule"], p["follow"] = sched, True
        cands.append(p)
    cands.append(base)
    for p in cands:
        got = sim.try_plan(race, p)
        if got and got[0] == first[0]:
            return p, race, got
    # Depends on what earlier runs of the same process left behind: replay the batch.
    rc3, out3, err3 = sim.run(race, ["-from", str(frm), "-n", str((idx - frm) // stride + 1), "-stride", str(stride)], 600)
    try:
        got = sim.classify(rc3, out3, err3)
    except CheckError:
        got = None
    if got and got[0] == first[0]:
        return {"prop": sim.prop, "batch": {"seed": sim.seed, "from": frm, "n": (idx - frm) // stride + 1, "stride": stride}}, race, got
    raise CheckError("violation %r at run %d does not reproduce in a fresh process" % (first, idx))


def minimise(sim, race, plan, want, budget):
    """Greedy delta debugging over operations, then scheduling decisions, then parameters."""
    t0 = time.time()
    tries = [0]
    stats = {"ops_before": len(plan["ops"] or []), "decisions_before": len(plan.get("schedule") or [])}

    def fails(p):
        tries[0] += 1
        got = sim.try_plan(race, p, 20)
        return got is not None and got[0] == want[0]

    def over():
        return time.time() - t0 > budget

    pool = concurrent.futures.ThreadPoolExecutor(8)

    def ddmin(items, rebuild):
        size = max(1, len(items) // 2)
        while size >= 1 and items and not over():
            i, changed = 0, False
            chunks = list(range(0, len(items), size))
            j = 0
            while j < len(chunks) and not over():
                group = chunks[j:j + 8]
                trial = [items[:c] + items[c + size:] for c in group]
                res = list(pool.map(lambda t: fails(rebuild(t)), trial))
                hit = next((x for x, ok in enumerate(res) if ok), None)
                if hit is None:
                    j += 8
                    continue
                items = trial[hit]
                changed = True
                chunks = list(range(0, len(items), size))
                j = j + hit
            if size == 1 and not changed:
                break
            size = size // 2 if size > 1 else (1 if changed else 0)
        return items

    def with_(p, **kw):
        q = dict(p)
        q.update(kw)
        return q

    cur = plan
    for _ in range(2):
        ops = ddmin(list(cur["ops"] or []), lambda t: with_(cur, ops=t))
        cur = with_(cur, ops=ops)
        if cur.get("follow"):
            sched = ddmin(list(cur["schedule"] or []), lambda t: with_(cur, schedule=t))
            cur = with_(cur, schedule=sched)
        # stalls and sizes to zero
        ops = [dict(o) for o in (cur["ops"] or [])]
        for i, o in enumerate(ops):
            if over():
                break
            for f in sim.meta.get("zero", ("n", "b")):
                if o.get(f):
                    trial = [dict(x) for x in ops]
                    trial[i][f] = 0
                    if fails(with_(cur, ops=trial)):
                        ops = trial
        cur = with_(cur, ops=ops)
        if over():
            break
    pool.shutdown()
    stats.update(ops_after=len(cur["ops"] or []), decisions_after=len(cur.get("schedule") or []), replays=tries[0], seconds=round(time.time() - t0, 1))
    return cur, stats


def load_known():
    known = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=(.+)$", line.strip())
            if m:
                known.append(m.groups() + ("",))
            m = re.match(r"known: property=(\S+) counted=(\S+) (.+)$", line.strip())
            if m:
                known.append((m.group(1), "counted", m.group(2), m.group(3)))
    except OSError:
        pass
    return known


def explore(sim, secs, tier):
    """Run workers until the time is up or something fails."""
    agg = {"runs": 0, "steps": 0, "switches": 0, "decisions": 0, "ticks": 0, "tick_ns": 0, "sim_ns": 0, "cpu_secs": 0.0}
    lanes = {"plain": 0, "race": 0}
    counters, nontrivial, inter, samples = {}, set(), set(), []
    found = []
    stop = threading.Event()
    errors = []
    lock = threading.Lock()
    deadline = time.time() + secs
    once = sim.meta.get("once", False)
    W = 8
    race_workers = sim.meta.get("race_workers", 3) if True in sim.bin else 0
    batch = sim.meta.get("batch", 4000)

    def worker(w):
        try:
            work(w)
        except Exception as e:  # noqa
            with lock:
                errors.append("worker: %r" % (e,))
            stop.set()

    def work(w):
        race = w < race_workers
        lane = list(range(race_workers)) if race else list(range(race_workers, W))
        pos, step = lane.index(w), len(lane)
        frm = (RACE_BASE if race else 0) + pos
        trace = os.path.join(sim.scratch, "trace%d" % w)
        while not stop.is_set():
            left = deadline - time.time()
            if left <= 0.05:
                return
            n = 1 if once else batch
            args = ["-from", str(frm), "-n", str(n), "-stride", str(step), "-secs", "%.2f" % left]
            if w in (0, W - 1) and len(samples) < 4:
                args += ["-samples", "1"]
            rc, out, err = sim.run(race, args, left + 60, trace)
            try:
                if rc != 0:
                    v = find_violation(sim, race, rc, out, err, trace, frm, step)
                    with lock:
                        found.append(v)
                    stop.set()
                    return
            except CheckError as e:
                # What failed does not fail again in a process of its own: go
                # on and look for something that does.
                with lock:
                    errors.append(str(e))
                    if len(errors) > 6:
                        stop.set()
                frm += step * n
                continue
            st = sim.tagged(out, "STATS")
            if not st:
                with lock:
                    errors.append("no statistics from worker: " + out[-300:] + err[-300:])
                stop.set()
                return
            st = st[0]
            with lock:
                for k in ("runs", "steps", "switches", "decisions", "ticks", "tick_ns", "sim_ns"):
                    agg[k] += st[k]
                agg["cpu_secs"] += st["secs"]
                lanes["race" if race else "plain"] += st["runs"]
                for k, v in st["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                if len(nontrivial) < 4000000:
                    nontrivial.update(int(x, 16) for x in st["nontrivial"])
                    inter.update(int(x, 16) for x in st["interleavings"])
                for s in sim.tagged(out, "SAMPLE"):
                    if len(samples) < 4:
                        samples.append(s)
            frm += step * n

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return agg, lanes, counters, nontrivial, inter, samples, found, errors


def selfcheck(sim, n):
    """Same seeds in differently sized processes, and in both builds: same digests."""
    def digests(race, parts):
        r = []
        per = n // parts
        for i in range(parts):
            rc, out, err = sim.run(race, ["-from", str(i * per), "-n", str(per), "-hashes"], 300)
            if rc != 0:
                return None
            r += [l for l in out.splitlines() if l.startswith("H ")]
        return r
    jobs = [(False, 1), (False, 4)] + ([(True, 2)] if True in sim.bin and sim.meta.get("race_same_schedule", True) else [])
    if sim.meta.get("once"):
        jobs = [(False, n), (False, n)]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: digests(*j), jobs))
    if any(r is None for r in res):
        return None
    bad = sum(1 for rows in zip(*res) if len(set(rows)) != 1)
    return {"runs_compared": len(res[0]) * (len(res) - 1), "diverging": bad}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--secs", type=float)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verifsim-")
    sim = Sim(a.prop, seed, scratch)
    rc = 3
    try:
        log("check %s: seed %d, tier %s" % (a.prop, seed, tier))
        sim.build()
        log("built in %.1f s" % sim.build_s)
        rc = do_replay(sim, a.replay) if a.replay else do_check(sim, a, tier, seed, t0)
    except (overlay.BuildTrouble, CheckError) as e:
        log("CHECK-ERROR: %s" % e)
        rc = 3
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def do_replay(sim, path):
    doc = json.load(open(path))
    race = doc["build"] == "race"
    if "batch" in doc["plan"]:
        b = doc["plan"]["batch"]
        sim.seed = b["seed"]
        got = sim.classify(*sim.run(race, ["-from", str(b["from"]), "-n", str(b["n"]), "-stride", str(b["stride"])], 600))
    else:
        got = sim.try_plan(race, doc["plan"], 60)
    if got is None:
        log("replay: no violation")
        return 0
    log("replay: %s\n%s" % got)
    if got[0] == "error":
        return 3
    log("VIOLATION property=%s replay=%s" % (sim.prop, path))
    return 1


def do_check(sim, a, tier, seed, t0):
    secs = a.secs or (sim.meta.get("quick_secs", 22) if tier == "quick" else sim.meta.get("thorough_secs", 600))
    sc = selfcheck(sim, int(os.environ.get("VERIF_SELFCHECK", 200 if tier == "quick" else 2000)))
    t1 = time.time()
    agg, lanes, counters, nontrivial, inter, samples, found, errors = explore(sim, secs, tier)
    wall = time.time() - t1
    known = load_known()
    violations, knowns = [], []
    for plan, race, (kind, msg) in found:
        hit = [k for k in known if k[0] == sim.prop and k[1] == kind != "counted" and re.search(k[2], msg, re.S)]
        (knowns if hit else violations).append((plan, race, (kind, msg)))
    for plan, race, (kind, msg) in knowns:
        log("KNOWN-FINDING: property=%s %s: %s" % (sim.prop, kind, msg.splitlines()[0]))
    for k in known:
        if k[0] == sim.prop and k[1] == "counted" and counters.get("known." + k[2]):
            log("KNOWN-FINDING: property=%s %s: %s (%d times)" % (sim.prop, k[2], k[3], counters["known." + k[2]]))
    replay = None
    if violations:
        plan, race, want = violations[0]
        mstats = {}
        if "batch" not in plan:
            plan, mstats = minimise(sim, race, plan, want, 40 if tier == "quick" else 240)
            got = [sim.try_plan(race, plan, 60) for _ in range(2)]
            if not all(g and g[0] == want[0] for g in got):
                raise CheckError("minimised schedule does not replay: %r" % (got,))
            want = got[0]
        os.makedirs(EV_DIR, exist_ok=True)
        replay = os.path.join(EV_DIR, "replay-%s.json" % sim.prop)
        with open(replay, "w") as f:
            json.dump({"property": sim.prop, "verif_seed": seed, "build": "race" if race else "plain", "kind": want[0],
                       "message": want[1], "minimisation": mstats, "plan": plan,
                       "replay_with": "python3 /verif/check.py %s --replay %s" % (sim.prop, replay)}, f, indent=1)
        log("%s: %s" % (want[0], want[1]))
        log("minimised: %s" % json.dumps(mstats))
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.") and v}
    probes = {k[6:]: v for k, v in counters.items() if k.startswith("probe.") and v}
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(nontrivial),
        "rule": "One evaluation is one simulated run: a workload, fault and scheduling plan generated from (VERIF_SEED, run index) and executed "
                "under the deterministic scheduler. A run is non-trivial if at least one scheduling decision differed from the default (run on; FIFO on block); "
                "distinct means distinct (plan, schedule digest) pairs, the digest covering every hand-over of the processor and the point it happened at.",
        "samples": [{"index": s["index"], "params": s["params"], "sched": s["sched"], "ops": (s["ops"] or [])[:12], "ops_total": len(s["ops"] or [])} for s in samples],
        "distinct_interleavings": len(inter),
        "runs_plain_build": lanes["plain"],
        "runs_race_detector_build": lanes["race"],
        "runs_per_hour": int(agg["runs"] / max(wall, 0.001) * 3600),
        "exploration_wall_s": round(wall, 2),
        "yield_points_passed": agg["steps"],
        "context_switches": agg["switches"],
        "non_default_decisions": agg["decisions"],
        "clock_ticks_injected": agg["ticks"],
        "simulated_time_s": round(agg["sim_ns"] / 1e9, 3),
        "simulated_time_injected_at_yields_s": round(agg["tick_ns"] / 1e9, 3),
        "faults_injected": faults,
        "probes_hit": probes,
        "determinism_selfcheck": sc,
        "components_real": sim.meta["real"],
        "components_stubbed": sim.meta["stub"],
    }
    ev = {
        "property": sim.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["seeded sampling of schedules and faults, not exhaustive",
                        "single-processor, sequentially consistent interleaving at statement granularity; memory-order effects only through the race detector's happens-before check",
                        "Go 1.27 runtime with the scheduler, clock and random sources replaced by rt/zz_sim.go"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(EV_DIR, exist_ok=True)
    with open(os.path.join(EV_DIR, sim.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        log("VIOLATION property=%s replay=%s" % (sim.prop, replay))
        return 1
    if errors:
        raise CheckError(errors[0])
    if sc and sc["diverging"]:
        log("note: some runs depend on state earlier runs of the process left in the code under test: %r" % (sc,))
    log("held: %d runs (%d distinct non-trivial), %d yield points, %.1f simulated s, faults %s, %.1f s" % (
        agg["runs"], len(nontrivial), agg["steps"], agg["sim_ns"] / 1e9, faults, time.time() - t0))
    missing = [] if not os.environ.get("VERIF_VERBOSE") else [k for k, v in counters.items() if v == 0]
    if missing:
        log("never hit: %s" % ", ".join(sorted(missing)))
    return 0


if __name__ == "__main__":
    main()
