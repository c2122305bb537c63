"""Shapefiles: interrupted saves are detected, never read as data."""
from .. import gens
from ..core import Invalid, ProcessKilled, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import shpcommon as sc

ID = "C08"
BUDGET = {"quick": (2500, 75), "thorough": (24000, 420)}
RULE = ("Seeded saves by path, with or without an older shapefile (same or other type, smaller or larger) at the name; then the same with a process crash at a sampled "
        "system call or inside a write, write/open/close/remove errors or a full disk, and finished files cut at sampled and boundary lengths; a fresh process reads the name "
        "in every way and saves again.")
REAL = ["coral.shapefile", "Python io buffering"]
STUB = ["disk and directory tree (dst.fs); crash = process death, kernel-accepted writes survive, user buffers are lost", "wall clock"]
ASSUME = ["a file is cut at a byte count; bytes are not altered otherwise", "as many records as shapes, fields and values that fit"]
PROBES = ["crash", "save-error", "old-data", "readable-after-crash", "unreadable-after-crash", "cut", "cut-error", "cut-prefix", "complete", "same-count"]
NOSHRINK = ("ext",)


def trim(d):
    """Crashing at every point of a crowd is too slow: a dozen shapes will do here."""
    d["shapes"], d["records"] = d["shapes"][:12], d["records"][:12]
    return d


def generate(rng, tier):
    new = trim(sc.gen_data(rng, nmax=5))
    old = None
    if rng.random() < 0.65:
        old = trim(sc.gen_data(rng, t=new["t"] if rng.random() < 0.6 else None, nmax=5))
        old["enc"] = new["enc"]
        if rng.random() < 0.6:
            old["fields"] = new["fields"]
        n = rng.choice([len(new["shapes"]), len(old["shapes"])])
        old["shapes"] = [sc.gen_shape(rng, old["t"]) for _ in range(n)]
        old["records"] = [sc.gen_record(rng, old["fields"], old["enc"]) for _ in range(n)]
        if old["t"] == new["t"] and rng.random() < 0.4:
            # the same geometry again, only the attributes differ (or the other way round)
            if rng.random() < 0.5 or old["fields"] is not new["fields"]:
                old["shapes"] = new["shapes"]
                old["records"] = [sc.gen_record(rng, old["fields"], old["enc"]) for _ in new["shapes"]]
            else:
                old["records"] = new["records"]
                old["shapes"] = [sc.gen_shape(rng, old["t"]) for _ in new["records"]]
    return {"bufsize": gens.bufsize(rng), "old": old, "new": new, "target": rng.choice(["m", "m", "m.shp", "sub/deep/m"]), "faults": [], "capacity": None,
            "cuts": []}


def variants(rng, scn, res, tier):
    size = res["hint"]
    s = dict(scn)
    s["cuts"] = []
    for e in ("shp", "shx", "dbf"):
        n = size[e]
        for c in sorted(set([rng.randrange(n) for _ in range(8)] + [0, 1, 31, 32, 33, 99, 100, 101, 107, 108, n - 1, n - 2] + size["at_" + e])):
            if 0 <= c < n:
                s["cuts"].append([e, c])
    s["cuts"] = rng.sample(s["cuts"], min(len(s["cuts"]), 40))
    yield s
    for i in range(6 if tier == "quick" else 12):
        s = dict(scn)
        r = rng.random()
        if r < 0.5:
            c = gens.crash(rng, res, ("new",))
            s["faults"] = [c] if c else []
        elif r < 0.85:
            s["faults"] = gens.faults(rng, res, ("new",), persist=0.3)
        else:
            s["capacity"] = rng.randint(0, size["shp"] + size["shx"] + size["dbf"])
        if rng.random() < 0.5:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def model(d):
    shapes, recs = sc.models(d)
    return {"d": d, "shapes": shapes, "recs": recs, "n": len(recs)}


def read_all(w, rd, cands, how, stop):
    """Everything a fresh reader returns must belong to one candidate; returns (candidates left, something was read, errors seen)."""
    seen = errors = 0
    budget = 100000

    def judge(why_of, what):
        nonlocal cands, seen
        seen += 1
        keep, whys = [], []
        for c in cands:
            x = why_of(c)
            if x is None:
                keep.append(c)
            else:
                whys.append(x)
        if not keep:
            raise Violation(stop, "%s, %s: %s" % (how, what, whys[0]))
        cands = keep

    def shp(c, i, x):
        return "no shape %d" % i if i >= c["n"] else sc.shape_diff(c["shapes"][i], x)

    def rec(c, i, x):
        if i >= c["n"]:
            return "no record %d" % i
        return "record %d missing" % i if x is None else sc.record_diff(c["recs"][i], c["d"]["fields"], x)

    def pair(c, i, x):
        return shp(c, i, x.shape) or rec(c, i, x.record)

    m = max(c["n"] for c in cands) + 1
    for what, make, one in (("iterShapes", rd.iterShapes, shp), ("iterRecords", rd.iterRecords, rec)):
        st, it = w.call(make, budget=budget)
        i = 0
        end = object()
        while st == "ok":
            st, v = w.call(next, it, end, budget=budget)
            if st == "exc":
                errors += 1
                break
            if v is end:
                break
            judge(lambda c: one(c, i, v), "%s %d" % (what, i))
            i += 1
    for what, fn, one in (("shapes", rd.shapes, shp), ("records", rd.records, rec), ("pairs", rd.shapeRecords, pair)):
        st, v = w.call(fn, budget=budget)
        if st == "exc":
            errors += 1
            continue
        expect(len(v) <= max(c["n"] for c in cands), stop, "%s, %s: %d items" % (how, what, len(v)))
        for i, x in enumerate(v):
            judge(lambda c: one(c, i, x), "%s %d" % (what, i))
    for i in list(range(m)) + [-1]:
        for what, fn, one in (("shape", rd.shape, shp), ("record", rd.record, rec), ("pair", rd.shapeRecord, pair)):
            st, v = w.call(fn, i, budget=budget)
            if st == "exc":
                errors += 1
                continue
            judge(lambda c: one(c, i if i >= 0 else c["n"] + i, v), "%s %d" % (what, i))
    return cands, seen, errors


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    w.clock.now = 1.4e9
    sf = C["shapefile"]
    tg = scn["target"]
    base = tg[:-4] if tg.endswith(".shp") else tg
    old = None
    if scn["old"] is not None:
        if scn["old"]["enc"] != scn["new"]["enc"]:
            raise Invalid("enc")
        old = model(scn["old"])
        fs.set_phase("old")
        w.must("save", sc.build(w, scn["old"]).save, tg)
        w.probe("old-data")
    new = model(scn["new"])
    if old and old["n"] == new["n"]:
        w.probe("same-count")
    wr = sc.build(w, scn["new"])
    fs.set_phase("new")
    if scn["capacity"] is not None:
        fs.capacity = fs.used() - sum(len(fs.peek(base + "." + e) or b"") for e in ("shp", "shx", "dbf")) + scn["capacity"]
    saved = crashed = False
    before = dict(w.fired)
    try:
        st, v = w.call(wr.save, tg)
        saved = st == "ok"
        if st == "exc":
            w.probe("save-error")
            if w.fired == before:
                raise Violation("save-failed", repr(v))
    except ProcessKilled:
        crashed = True
        w.probe("crash")
    wr = None
    fs.reboot()
    fs.faults = []
    fs.capacity = None
    fs.set_phase("check")
    d = scn["new"]
    enc = d["enc"]
    ndir = 1 + sum(int(f[2]) for f in d["fields"])
    size = {e: len(fs.peek(base + "." + e) or b"x") for e in ("shp", "shx", "dbf")}
    size["at_shx"] = [100 + 8 * i for i in range(new["n"] + 1)]
    size["at_dbf"] = [33 + 32 * len(d["fields"]) + i * ndir for i in range(new["n"] + 1)]
    at, offs = 100, []
    for m in new["shapes"]:
        offs.append(at)
        at += 8 + len(sc.encode_content(m))
    size["at_shp"] = offs
    w.hint = size

    def full(cls):
        sc.check_bytes(cls, fs, base, d["t"], new["shapes"], d["fields"], new["recs"], enc)
        rd = w.must("open", sf.Reader, base, encoding=enc)
        _, seen, errors = read_all(w, rd, [new], "complete save", cls)
        # the two indexes past the end, for shape, record and pair
        n = new["n"]
        expect(errors == (3 if n else 6) and seen == 8 * n + (3 if n else 0), cls, "%d reads failed" % errors)
        why = sc.fields_diff(d["fields"], rd.fields)
        expect(why is None, cls, str(why))

    if saved:
        full("lost-after-save")
        w.probe("complete")
        for e, c in scn["cuts"]:
            data = fs.peek(base + "." + e)
            if not 0 <= c < len(data):
                continue
            fs.poke(base + "." + e, data[:c])
            w.probe("cut")
            st, rd = w.call(sf.Reader, base, encoding=enc)
            if st == "exc":
                w.probe("cut-error")
            else:
                _, seen, errors = read_all(w, rd, [new], "%s cut at byte %d of %d" % (e, c, len(data)), "wrong-when-cut")
                w.probe("cut-prefix" if seen else "cut-error")
            # the cut file on its own, or without the index
            objs = {x: open(base + "." + x, "rb") for x in ("shp", "dbf")}
            st, rd = w.call(lambda: sf.Reader(encoding=enc, **objs))
            if st == "ok":
                read_all(w, rd, [new], "%s cut at byte %d of %d, no index" % (e, c, len(data)), "wrong-when-cut")
            fs.poke(base + "." + e, data)
    else:
        st, rd = w.call(sf.Reader, base, encoding=enc)
        if st == "exc":
            w.probe("unreadable-after-crash")
        else:
            w.probe("readable-after-crash")
            cands = [new] + ([old] if old else [])
            cands, seen, errors = read_all(w, rd, cands, "after the crash" if crashed else "after the error", "wrong-after-crash" if crashed else "wrong-after-error")
            if seen:
                ok = [c for c in cands if sc.fields_diff(c["d"]["fields"], rd.fields) is None and rd.shapeType in (c["d"]["t"],)]
                expect(ok, "wrong-after-crash", "header of another save")
    # whatever happened, a new save repairs everything
    fs.set_phase("again")
    w.must("save", sc.build(w, scn["new"]).save, tg)
    full("wrong-second-save")
