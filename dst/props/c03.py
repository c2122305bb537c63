"""P files: every entity reads back within the quantisation error."""
from .. import gens
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import pfcommon as pc

ID = "C03"
BUDGET = {"quick": (2500, 75), "thorough": (20000, 420)}
RULE = ("Seeded P files (all sizes; range-edge, wrapped, degenerate and ordinary polygons) read by several readers by position, negative position and name; "
        "then the same run with read/seek/open errors and short reads placed inside it.")
REAL = ["coral.pf", "coral.bbox", "coral.coord.haversine", "Python io buffering"]
STUB = ["disk and directory tree (dst.fs)"]
ASSUME = ["coordinates are finite and within a few turns of the globe, names are distinct ASCII texts without NUL"]
PROBES = ["read-error", "short", "unknown", "degenerate", "wrapped", "replaced"]


def generate(rng, tier):
    sets = [{"path": "f%d.p" % i, "size": rng.choice([1, 2, 4, 8]), "ents": pc.gen_ents(rng, rng.random() < 0.15, rng.random() < 0.007)}
            for i in range(rng.choice([1, 1, 2]))]
    for s in sets:
        s["default"] = s["size"] == 4 and rng.random() < 0.5
    readers = [rng.randrange(len(sets)) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([3, 6, 12, 20])):
        r = rng.randrange(len(readers))
        n = len(sets[readers[r]]["ents"])
        k = rng.random()
        if len(ops) > 4 and any(len(q) > 5000 for x in sets for e in x["ents"] for q in e["polys"]):
            break
        ops.append([rng.choice(["read", "read", "get", "get", "neg"]) if k < 0.85 else rng.choice(["unknown", "beyond", "reopen", "len"]),
                    r, rng.randrange(n)])
    return {"bufsize": gens.bufsize(rng), "sets": sets, "readers": readers, "ops": ops, "faults": [], "again": rng.random() < 0.4}


def variants(rng, scn, res, tier):
    huge = any(len(q) > 5000 for x in scn["sets"] for e in x["ents"] for q in e["polys"])
    for _ in range(1 if huge else 6 if tier == "quick" else 12):
        s = dict(scn)
        s["faults"] = gens.faults(rng, res, ("read",), ("read", "seek", "open"), persist=0)
        if not s["faults"]:
            return
        if rng.random() < 0.3:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    pf = C["pf"]
    sets = scn["sets"]
    if len({s["path"] for s in sets}) != len(sets):
        raise Invalid("paths")
    fs.set_phase("write")
    errs = []
    w.budget = 400000 + 300 * sum(len(q) for s in sets for e in s["ents"] for q in e["polys"])
    for s in sets:
        pc.check_ents(s["ents"])
        if s["size"] not in (1, 2, 4, 8) or s.get("default") and s["size"] != 4:
            raise Invalid("size")
        wr = w.must("writer", pf.Writer, s["path"], *([] if s.get("default") else [s["size"]]))
        for e in s["ents"]:
            polys = [[tuple(p) for p in q] for q in e["polys"]]
            w.must("write", wr.write, e["name"], polys)
            expect(polys == [[tuple(p) for p in q] for q in e["polys"]], "argument-changed", e["name"])
            gens.wipe(polys)
            m = pc.model(e)
            if any(abs(p[0]) > 180 or abs(p[1]) > 90 for q in e["polys"] for p in q):
                w.probe("wrapped")
            if any(len({p[0] for p in q}) == 1 for q in m):
                w.probe("degenerate")
        errs.append(w.must("close", wr.close))
    fs.set_phase("read")
    slots = [None] * len(scn["readers"])

    def attempt(fn, *a):
        before = gens.errors_fired(w)
        st, v = w.call(fn, *a)
        if st == "exc" and gens.errors_fired(w) > before:
            w.probe("read-error")
            return "fault", v
        return st, v

    def judge(s, k, v, what):
        why = pc.same(s["ents"][k], s["size"], v)
        expect(why is None, "wrong-entity", "%s: %s" % (what, why))

    for op in scn["ops"]:
        r = op[1]
        if r >= len(slots) or scn["readers"][r] >= len(sets):
            continue
        s = sets[scn["readers"][r]]
        n = len(s["ents"])
        k = op[2]
        if slots[r] is None or op[0] == "reopen":
            st, v = attempt(pf.Reader, s["path"])
            if st == "exc":
                raise Violation("open-failed", repr(v))
            slots[r] = v if st == "ok" else None
            if st == "fault" or op[0] == "reopen":
                continue
        rd = slots[r]
        if k >= n:
            continue
        if op[0] == "len":
            expect(len(rd) == n, "wrong-length", "%r" % len(rd))
            continue
        if op[0] in ("unknown", "beyond"):
            st, v = attempt(rd.get, "no such name") if op[0] == "unknown" else attempt(rd.read, n)
            w.probe("unknown")
            expect(st != "ok", "unknown-found", repr(v)[:200])
            continue
        if op[0] == "read":
            st, v = attempt(rd.read, k)
        elif op[0] == "neg":
            st, v = attempt(rd.read, k - n)
        elif op[0] == "get":
            st, v = attempt(rd.get, s["ents"][k]["name"])
        else:
            continue
        if st == "exc":
            raise Violation("read-failed", "%s %d: %r" % (op[0], k, v))
        if st == "ok":
            judge(s, k, v, "%s %d" % (op[0], k))
            # what was returned belongs to the caller
            gens.wipe(v)
    fs.set_phase("final")
    if any(k.endswith("short") for k in w.fired):
        w.probe("short")
    for r, rd in enumerate(slots):
        if rd is None:
            continue
        s = sets[scn["readers"][r]]
        for k in reversed(range(len(s["ents"]))):
            judge(s, k, w.must("read", rd.read, k), "final read %d" % k)
        w.must("reader-close", rd.close)
    for s, er in zip(sets, errs):
        rd = w.must("open", pf.Reader, s["path"])
        expect(len(rd) == len(s["ents"]), "wrong-length", "%r" % len(rd))
        reads = []
        for k, e in enumerate(s["ents"]):
            v = w.must("get", rd.get, e["name"])
            judge(s, k, v, "get %r" % e["name"])
            reads.append(v)
        pc.check_errors(er, s["ents"], reads)
        w.must("reader-close", rd.close)
    if scn.get("again"):
        # another file in the place of the first, of the same size: mirrored
        fs.set_phase("again")
        w.probe("replaced")
        s = sets[0]
        new = {"size": s["size"], "ents": [dict(e, polys=[[[-x, -y] for x, y in q] for q in e["polys"]]) for e in s["ents"]]}
        pc.check_ents(new["ents"])
        wr = w.must("writer", pf.Writer, s["path"], s["size"])
        for e in new["ents"]:
            w.must("write", wr.write, e["name"], [[tuple(p) for p in q] for q in e["polys"]])
        w.must("close", wr.close)
        rd = w.must("open", pf.Reader, s["path"])
        for k in range(len(new["ents"])):
            judge(new, k, w.must("read", rd.read, k), "after replacing the file, read %d" % k)
        w.must("reader-close", rd.close)
