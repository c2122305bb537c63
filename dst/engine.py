"""Seeded search: runs many simulated executions in forked children, aggregates, minimises, reports."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from . import core, patch
from .core import Invalid, ProcessKilled, StepLimit, Violation, World

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORAL = ["bbox", "coord", "frame", "gradient", "grid", "names", "pf", "proj", "raster", "rg", "shapefile", "stats",
         "table", "tqdm", "vector"]
SLOW = float(os.environ.get("DST_SLOW", "0"))     # report executions slower than this many seconds (for tuning)
WALL = 30.0       # seconds of real time one execution may take before it counts as hung
C = {}            # coral modules by name


def load_coral():
    patch.prepare()
    # tqdm binds sys.stderr when it is imported: give it the simulated stream
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = patch.OUT, patch.ERRS
    sys.dont_write_bytecode = True
    sys.path.insert(0, patch.REPO)
    try:
        for n in CORAL:
            C[n] = importlib.import_module("coral." + n)
    finally:
        sys.stdout, sys.stderr = so, se
    for n, m in C.items():
        if not os.path.abspath(m.__file__).startswith(patch.REPO + "/"):
            raise SystemExit("coral imported from %s" % m.__file__)
    core.install_monitor(patch.REPO + "/coral/")


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


# ------------------------------------------------------------------------------------------------ one execution
def _in_oracle(e):
    """Was the exception raised in a property module itself (and not in the simulated disk, clock or processes)?"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and tb.tb_frame.f_code.co_filename.startswith(os.path.join(ROOT, "dst", "props"))


def _in_coral(e):
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and tb.tb_frame.f_code.co_filename.startswith(patch.REPO + "/coral/")


def _child(mod, scn, trace):
    gc.disable()
    w = World(trace)
    random.seed(0)
    patch.install(list(C.values()))
    core.set_world(w)
    res = {"status": "ok", "cls": "", "detail": ""}
    try:
        mod.execute(scn, w)
    except Violation as v:
        res.update(status="violation", cls=v.cls, detail=str(v.detail)[:3000])
    except Invalid as e:
        res.update(status="invalid", detail=str(e))
    except StepLimit:
        res.update(status="violation", cls="no-progress", detail="step budget exhausted")
    except MemoryError:
        res.update(status="violation", cls="no-progress", detail="memory exhausted")
    except BaseException as e:
        res.update(status="harness", cls=type(e).__name__, detail=traceback.format_exc()[-3000:])
        if isinstance(e, Exception) and not isinstance(e, (NotImplementedError, ImportError)) and _in_oracle(e):
            # what the code under test handed back is not even of the documented form
            res.update(status="violation", cls="malformed-result:" + type(e).__name__)
        elif isinstance(e, Exception) and not isinstance(e, (NotImplementedError, ImportError)) and _in_coral(e):
            # a step no fault can touch and that every valid input survives
            res.update(status="violation", cls="unexpected-error:" + type(e).__name__)
    core.set_world(None)
    fs = w.fs
    res["digest"] = w.digest() + "/" + hashlib.blake2b((res["status"] + res["cls"]).encode(), digest_size=4).hexdigest()
    res["counts"] = {"%s|%s" % k: n for k, n in fs.count.items()} if fs is not None else {}
    res["fired"] = w.fired
    res["probes"] = w.probes
    res["acks"] = w.acks
    res["nev"] = w.nev
    res["lines"] = w.lines
    res["sched"] = w.sched.trace.hexdigest()
    res["steps"] = w.sched.step
    res["switches"] = w.sched.switches
    res["simtime"] = w.clock.forward
    res["hint"] = getattr(w, "hint", None)
    if trace:
        res["trace"] = w.keep
    return res


def run_one(mod, scn, trace=False, wall=None):
    """Run one scenario in a forked child; a pure function of the scenario and the code."""
    scn = json.loads(json.dumps(scn))
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            write = os.write
            ex = os._exit
            dumps = pickle.dumps
            res = _child(mod, scn, trace)
            data = dumps(res)
            while data:
                n = patch.REAL["write"](wfd, data)
                data = data[n:]
            code = 0
        finally:
            ex(code)
    os.close(wfd)
    buf = []
    wall = wall or WALL
    t0 = time.monotonic()
    deadline = t0 + wall
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    if SLOW and time.monotonic() - t0 > SLOW:
        os.write(2, b"slow %.1fs %s\n" % (time.monotonic() - t0, json.dumps(scn).encode()[:150]))
    if hung:
        return {"status": "hung", "cls": "hung", "detail": "no result after %gs" % wall, "digest": "hung", "counts": {},
                "fired": {}, "probes": {}, "acks": 0, "nev": 0, "lines": 0, "sched": "", "steps": 0, "switches": 0, "simtime": 0, "hint": None}
    data = b"".join(buf)
    if not data:
        return {"status": "harness", "cls": "died", "detail": "child died", "digest": "died", "counts": {}, "fired": {},
                "probes": {}, "acks": 0, "nev": 0, "lines": 0, "sched": "", "steps": 0, "switches": 0, "simtime": 0, "hint": None}
    return pickle.loads(data)


def settle(mod, scn, res):
    """A wall-clock kill is a violation only if it repeats; anything else inconclusive stays a harness problem."""
    if res["status"] == "hung":
        again = run_one(mod, scn, wall=3 * WALL)
        if again["status"] == "hung":
            again.update(status="violation", cls="no-progress", hung=True, detail="no result within %gs, then within %gs" % (WALL, 3 * WALL))
        return again
    return res


# ------------------------------------------------------------------------------------------------ seeds
def rng_for(seed, pid, i):
    return random.Random("%s/%s/%d" % (seed, pid, i))


def explore_seed(mod, seed, i, tier):
    """All executions belonging to one seed: an undisturbed run, then runs with faults and schedules placed
    inside what the undisturbed run did.  Yields (scenario, result)."""
    rng = rng_for(seed, mod.ID, i)
    scn = json.loads(json.dumps(mod.generate(rng, tier)))
    res = settle(mod, scn, run_one(mod, scn))
    yield scn, res
    if res["status"] != "ok":
        return
    for v in mod.variants(rng, scn, res, tier):
        v = json.loads(json.dumps(v))
        yield v, settle(mod, v, run_one(mod, v))


class Agg:
    def __init__(self):
        self.runs = 0
        self.faulted = 0
        self.seeds = 0
        self.fired = {}
        self.probes = {}
        self.acks = 0
        self.events = 0
        self.lines = 0
        self.switches = 0
        self.simtime = 0.0
        self.digests = set()
        self.scheds = set()
        self.nontrivial = set()
        self.samples = []
        self.problems = []     # harness errors
        self.violations = []   # (seed index, scenario, result)

    def add(self, i, scn, res):
        self.runs += 1
        for a, b in ((self.fired, res["fired"]), (self.probes, res["probes"])):
            for k, n in b.items():
                a[k] = a.get(k, 0) + n
        self.acks += res["acks"]
        self.events += res["nev"]
        self.lines += res["lines"]
        self.switches += res["switches"]
        self.simtime += res["simtime"]
        if res["fired"] or res["switches"]:
            self.faulted += 1
        self.digests.add(res["digest"])
        if res["steps"]:
            self.scheds.add(res["sched"])
        if res["acks"] >= 2:
            self.nontrivial.add(res["digest"])
        if res["status"] == "violation":
            self.violations.append((i, scn, res))
        elif res["status"] in ("harness", "invalid"):
            self.problems.append((i, res["status"] + ": " + res["detail"], scn))

    def merge(self, o):
        self.runs += o.runs
        self.faulted += o.faulted
        self.seeds += o.seeds
        for a, b in ((self.fired, o.fired), (self.probes, o.probes)):
            for k, n in b.items():
                a[k] = a.get(k, 0) + n
        for n in ("acks", "events", "lines", "switches", "simtime"):
            setattr(self, n, getattr(self, n) + getattr(o, n))
        self.digests |= o.digests
        self.scheds |= o.scheds
        self.nontrivial |= o.nontrivial
        self.samples += o.samples
        self.problems += o.problems
        self.violations += o.violations


def worker(mod, seed, tier, shard, nshards, nseeds, deadline, known):
    agg = Agg()
    for i in range(shard, nseeds, nshards):
        if time.monotonic() > deadline and agg.seeds >= 1:
            break
        agg.seeds += 1
        for scn, res in explore_seed(mod, seed, i, tier):
            agg.add(i, scn, res)
            if shard == 0 and len(agg.samples) < 4 and (i == 0 or res["fired"]):
                s = json.dumps(scn)
                agg.samples.append({"seed_index": i, "scenario": s if len(s) < 700 else s[:700] + "...",
                                    "outcome": res["status"], "faults_fired": res["fired"], "events": res["nev"],
                                    "digest": res["digest"]})
        fresh = [v for v in agg.violations if not match_known(known, mod.ID, v[1], v[2])]
        if len(fresh) >= 1 or len(agg.problems) >= 3:
            break
    return agg


def sweep(mod, seed, tier, nseeds, wall, workers, known):
    deadline = time.monotonic() + wall
    pipes = []
    for s in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for q, _ in pipes:
                    os.close(q)
                try:
                    data = pickle.dumps(worker(mod, seed, tier, s, workers, nseeds, deadline, known))
                except BaseException:
                    a = Agg()
                    a.problems.append((-1, "worker: " + traceback.format_exc(), None))
                    data = pickle.dumps(a)
                with os.fdopen(wfd, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(wfd)
        pipes.append((r, pid))
    agg = Agg()
    for r, pid in pipes:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            agg.problems.append((-1, "worker died", None))
        else:
            agg.merge(pickle.loads(data))
    agg.violations.sort(key=lambda v: v[0])
    return agg


# ------------------------------------------------------------------------------------------------ known findings
def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def match_known(known, pid, scn, res):
    """A listed finding is identified by property, violation class and facts about the failing scenario."""
    mod = sys.modules.get("dst.props." + pid.lower())
    for k in known.get("findings", []):
        if k["property"] == pid and k["class"] == res["cls"]:
            fn = getattr(mod, "matches_finding", None)
            if fn is None or fn(k, scn, res):
                return k
    return None


# ------------------------------------------------------------------------------------------------ minimisation
def _paths(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _set(x, path, v):
    x = json.loads(json.dumps(x))
    if not path:
        return v
    y = _get(x, path[:-1])
    y[path[-1]] = v
    return x


def _candidates(scn, keep):
    lists = [(p, v) for p, v in _paths(scn) if isinstance(v, list) and v and not (set(map(str, p)) & keep)]
    lists.sort(key=lambda pv: -len(json.dumps(pv[1])))
    for p, v in lists:
        n = len(v)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                if size == n and n == 1 and a:
                    continue
                yield ("del", p, a, size)
            size //= 2
    for p, v in _paths(scn):
        if set(map(str, p)) & keep or not p:
            continue
        if isinstance(v, bool):
            if v:
                yield ("set", p, False, 0)
        elif isinstance(v, int):
            for c in (0, 1, v // 2, v - 1):
                if c != v and abs(c) < abs(v):
                    yield ("set", p, c, 0)
        elif isinstance(v, float):
            for c in (0.0, 1.0, float(int(v)) if abs(v) < 1e15 else 0.0, round(v, 1)):
                if c != v and len(repr(c)) < len(repr(v)):
                    yield ("set", p, c, 0)
        elif isinstance(v, str) and len(v) > 1:
            yield ("set", p, v[:len(v) // 2], 0)
            yield ("set", p, v[:1], 0)


def minimise(mod, scn, cls, wall=45.0, maxruns=3000):
    keep = {"kind", "cat", "ph", "t"} | set(getattr(mod, "NOSHRINK", ()))
    deadline = time.monotonic() + wall
    runs = 0
    best = scn
    progress = True
    while progress and time.monotonic() < deadline and runs < maxruns:
        progress = False
        for c in list(_candidates(best, keep)):
            if time.monotonic() > deadline or runs >= maxruns:
                break
            try:
                if c[0] == "del":
                    v = _get(best, c[1])
                    if not isinstance(v, list) or c[2] >= len(v):
                        continue
                    t = _set(best, c[1], v[:c[2]] + v[c[2] + c[3]:])
                else:
                    v = _get(best, c[1])
                    if v == c[2]:
                        continue
                    t = _set(best, c[1], c[2])
            except (KeyError, IndexError, TypeError):
                continue
            runs += 1
            r = run_one(mod, t)
            if r["status"] == "hung":
                return best, runs      # too slow to shrink further
            if r["status"] == "violation" and r["cls"] == cls:
                best = t
                progress = True
    return best, runs


# ------------------------------------------------------------------------------------------------ check
def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    load_coral()
    mod = load_prop(d["property"])
    res = settle(mod, d["scenario"], run_one(mod, d["scenario"], trace=True))
    return d, res


def check(pid, tier, seed, workers=None, nseeds=None, wall=None, quiet=False):
    t0 = time.monotonic()
    workers = workers or int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 4)
    print("dst: property=%s tier=%s VERIF_SEED=%s workers=%d" % (pid, tier, seed, workers), flush=True)
    load_coral()
    mod = load_prop(pid)
    known = load_known()
    cfg = mod.BUDGET[tier]
    nseeds = nseeds or int(os.environ.get("DST_SEEDS", "0")) or cfg[0]
    wall = wall or cfg[1]
    status = 0
    agg = sweep(mod, seed, tier, nseeds, wall, workers, known)
    new = []
    for v in agg.violations:
        if match_known(known, pid, v[1], v[2]) is None:
            new.append(v)
    # listed findings are re-demonstrated from their own recorded scenario
    for k in known.get("findings", []):
        if k["property"] != pid:
            continue
        with open(os.path.join(ROOT, k["replay"])) as f:
            d = json.load(f)
        r = settle(mod, d["scenario"], run_one(mod, d["scenario"]))
        if r["status"] == "violation" and r["cls"] == k["class"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
        elif r["status"] == "violation":
            new.append((-1, d["scenario"], r))
    nviol = 0
    if new:
        i, scn, res = new[0]
        small, runs = (scn, 0) if res.get("hung") else minimise(mod, scn, res["cls"], float(os.environ.get("DST_SHRINK", "45")))
        final = settle(mod, small, run_one(mod, small, trace=True))
        if not (final["status"] == "violation" and final["cls"] == res["cls"]):
            small, final = scn, settle(mod, scn, run_one(mod, scn, trace=True))
        if not (final["status"] == "violation" and final["cls"] == res["cls"]):
            agg.problems.append((i, "violation %s did not reproduce (%s)" % (res["cls"], final["status"]), scn))
        else:
            nviol = len(new)
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            tag = hashlib.blake2b(json.dumps(small, sort_keys=True).encode(), digest_size=5).hexdigest()
            rel = "replays/%s-%s.json" % (pid, tag)
            with open(os.path.join(ROOT, rel), "w") as f:
                json.dump({"property": pid, "verif_seed": seed, "seed_index": i, "class": final["cls"],
                           "detail": final["detail"], "digest": final["digest"], "scenario": small,
                           "minimised_with_runs": runs, "trace": final.get("trace")}, f, indent=1)
            print("violation class: %s\n  %s" % (final["cls"], final["detail"]), flush=True)
            print("  seed: VERIF_SEED=%s index=%d; replay with: ./check replay %s" % (seed, i, rel), flush=True)
            print("VIOLATION property=%s replay=%s" % (pid, rel), flush=True)
            status = 1
    if agg.problems and status == 0:
        for p in agg.problems[:3]:
            print("HARNESS-ERROR seed_index=%s %s" % (p[0], p[1]), file=sys.stderr, flush=True)
            if p[2] is not None:
                print(json.dumps(p[2])[:2000], file=sys.stderr, flush=True)
        status = 2
    wall_s = time.monotonic() - t0
    ev = {
        "property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": len(agg.nontrivial),
            "rule": mod.RULE + "  Distinct: digest of the run's whole event log (every API call with its outcome, every simulated "
                    "system call with path and size, every fault); non-trivial: at least two API calls completed normally.",
            "samples": agg.samples[:4],
            "seeds": agg.seeds,
            "runs_per_hour": int(agg.runs / wall_s * 3600),
            "seeds_per_hour": int(agg.seeds / wall_s * 3600),
            "runs_with_fault_or_preemption": agg.faulted,
            "simulated_seconds": round(agg.simtime, 3),
            "faults_injected": dict(sorted(agg.fired.items())),
            "probes": dict(sorted(agg.probes.items())),
            "api_calls_completed": agg.acks,
            "events": agg.events,
            "coral_source_lines_executed": agg.lines,
            "preemptions": agg.switches,
            "distinct_event_logs": len(agg.digests),
            "distinct_interleavings": len(agg.scheds),
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(wall_s, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("dst: property=%s runs=%d seeds=%d distinct=%d faults=%s wall=%.1fs exit=%d" %
          (pid, agg.runs, agg.seeds, len(agg.digests), sum(agg.fired.values()), wall_s, status), flush=True)
    missing = [p for p in getattr(mod, "PROBES", ()) if not agg.probes.get(p)]
    if missing:
        print("dst: probes never hit: %s" % ", ".join(missing), flush=True)
    return status
