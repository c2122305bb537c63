"""Shapefile to P conversion is exact or fails loudly."""
from .. import gens
from ..core import Invalid, ProcessKilled, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import pfcommon as pc
from . import shpcommon as sc

ID = "C09"
BUDGET = {"quick": (2500, 75), "thorough": (24000, 420)}
RULE = ("Seeded polygon and polyline shapefiles (multi-part, Z and M, null shapes, deleted records, repeated and unusable names) converted at every size, with or without an "
        "older result file; then the same with read/write/open/seek/close errors on either side, full disks, short transfers and a process crash at a sampled system call; "
        "the conversion is repeated afterwards.")
REAL = ["coral.pf (sf2pf, Writer, Reader)", "coral.shapefile", "coral.bbox", "coral.coord.haversine", "Python io buffering"]
STUB = ["disk and directory tree (dst.fs); crash = process death, kernel-accepted writes survive, user buffers are lost", "wall clock"]
ASSUME = ["coordinates are finite and within a few turns of the globe", "the source is UTF-8 and well-formed"]
PROBES = ["convert-error", "crash", "old-result", "null-shape", "deleted", "bad-name", "short", "prefix-after-crash", "multi-part"]


def generate(rng, tier):
    t = rng.choice([3, 5, 5, 13, 15, 23, 25])
    d = {"t": t, "auto": False, "enc": "utf-8", "fields": [["NAME", "C", "30", 0], ["N", "N", 8, 0]], "shapes": [], "records": []}
    if rng.random() < 0.3:
        d["fields"].insert(0, ["OTHER", "C", 5, 0])
    for i in range(rng.choice([1, 2, 3, 5])):
        if rng.random() < 0.03:
            d["shapes"].append({"t": 0})
        else:
            polys = [pc.gen_poly(rng, rng.random() < 0.05) for _ in range(rng.choice([1, 1, 2, 3]))]
            dim = rng.choice([3, 4]) if t in sc.HASM else 2
            d["shapes"].append({"t": t, "line": False, "parts": [[p + [rng.choice([0, 5.5])] * (dim - 2) for p in q] for q in polys]})
        name = rng.choice(["35", "BR", "Rio", "a b", "x%d" % i, "y%d" % i, "z%d" % i, "S\u00e3o" if rng.random() < 0.3 else "q%d" % i])
        v = [name, rng.randint(-99, 99)]
        if len(d["fields"]) == 3:
            v.insert(0, "o")
        d["records"].append({"v": v, "kw": False, "omit": []})
    n = len(d["shapes"])
    size = rng.choice([1, 2, 4, 4, 8])
    return {"bufsize": gens.bufsize(rng), "data": d, "size": size, "default": size == 4 and rng.random() < 0.5, "old": pc.gen_ents(rng) if rng.random() < 0.3 else None,
            "deleted": [rng.randrange(n)] if rng.random() < 0.15 else [], "key": rng.choice(["NAME", "NAME", "N"]), "faults": [], "capacity": None, "cuts": []}


def variants(rng, scn, res, tier):
    n = res["hint"]
    for i in range(6 if tier == "quick" else 12):
        s = dict(scn)
        r = rng.random()
        if r < 0.3:
            c = gens.crash(rng, res, ("convert",))
            s["faults"] = [c] if c else []
        elif r < 0.8:
            s["faults"] = gens.faults(rng, res, ("convert",), persist=0.2)
            for f in s["faults"]:
                if f["cat"] == "close":
                    f["path"] = ".p"
                    f["at"] = rng.randint(1, 4)
                    f["count"] = 4
        elif r < 0.9:
            s["capacity"] = rng.randint(0, n)
        else:
            s["cuts"] = sorted({rng.randrange(n) for _ in range(12)})
        if rng.random() < 0.4:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    w.clock.now = 1.4e9
    pf = C["pf"]
    d, size = scn["data"], scn["size"]
    sizearg = [] if scn.get("default") else [size]
    if size not in (1, 2, 4, 8) or scn.get("default") and size != 4 or d["t"] not in sc.PARTS:
        raise Invalid("size")
    names = [f[0] for f in d["fields"]]
    if scn["key"] not in names:
        raise Invalid("key")
    col = names.index(scn["key"])
    fs.set_phase("old")
    shapes, recs = sc.models(d)
    w.must("save", sc.build(w, d).save, "src")
    for k in scn["deleted"]:
        if not 0 <= k < len(recs):
            raise Invalid("deleted")
        b = bytearray(fs.peek("src.dbf"))
        b[33 + 32 * len(d["fields"]) + k * (1 + sum(int(f[2]) for f in d["fields"]))] = 0x2a
        fs.poke("src.dbf", b)
        w.probe("deleted")
    if scn["old"]:
        pc.check_ents(scn["old"])
        wr = w.must("writer", pf.Writer, "f.p", size)
        for e in scn["old"]:
            w.must("write", wr.write, e["name"], [[tuple(p) for p in q] for q in e["polys"]])
        w.must("close", wr.close)
        w.probe("old-result")
    # what the result has to be
    ents, impossible = [], False
    for k, (m, r) in enumerate(zip(shapes, recs)):
        if k in scn["deleted"]:
            continue
        name = str(r[col])
        if m["type"] == 0:
            impossible = True
            w.probe("null-shape")
            continue
        offs = m["parts"] + [len(m["points"])]
        e = {"name": name, "polys": [m["points"][a:b] for a, b in zip(offs[:-1], offs[1:])]}
        if len(offs) > 2:
            w.probe("multi-part")
        if not pc.valid_ent(e):
            impossible = True
            w.probe("bad-name")
            continue
        ents.append(e)
    source = {e: fs.peek("src." + e) for e in ("shp", "shx", "dbf")}
    fs.set_phase("convert")
    if scn["capacity"] is not None:
        fs.capacity = fs.used() - len(fs.peek("f.p") or b"") + scn["capacity"]

    def getname(record):
        return str(record[col])

    crashed = False
    st, v = "none", None
    before = dict(w.fired)
    try:
        st, v = w.call(pf.sf2pf, "src", "f.p", getname, *sizearg)
    except ProcessKilled:
        crashed = True
        w.probe("crash")
    if any(k.endswith("short") for k in w.fired):
        w.probe("short")
    fs.reboot()
    fs.faults = []
    fs.capacity = None
    fs.set_phase("check")
    w.hint = max(2, len(fs.peek("f.p") or b""))
    for e in source:
        expect(fs.peek("src." + e) == source[e], "source-changed", e)

    def readable():
        st, rd = w.call(pf.Reader, "f.p", budget=200000)
        if st == "exc":
            return None
        got = []
        for i in range(min(len(rd), 1000)):
            st, x = w.call(rd.read, i, budget=200000)
            got.append(x if st == "ok" else None)
        w.call(rd.close)
        return got, list(rd.names)

    def prefix(back, want):
        got = back[0]
        if len(got) > len(want):
            return "%d entities" % len(got)
        for i, x in enumerate(got):
            if x is None:
                continue
            if back[1][i] != want[i]["name"]:
                return "entity %d is named %r" % (i, back[1][i])
            why = pc.same(want[i], size, x)
            if why:
                return "entity %d: %s" % (i, why)
        return None

    def complete(cls, errs):
        back = readable()
        expect(back is not None, cls, "the result cannot be opened")
        expect(len(back[0]) == len(ents) and None not in back[0], cls, "%d entities, %d readable, %d expected" %
               (len(back[0]), len([x for x in back[0] if x is not None]), len(ents)))
        why = prefix(back, ents)
        expect(why is None, cls, str(why))
        pc.check_errors(errs, ents, back[0])
        rd = w.must("open", pf.Reader, "f.p")
        for e in ents:
            first = [x for x in ents if x["name"] == e["name"]][0]
            why = pc.same(first, size, w.must("get", rd.get, e["name"]))
            expect(why is None, cls, "by name %r: %s" % (e["name"], why))

    if st == "ok":
        expect(not impossible, "impossible-converted", "a null shape or unusable name was converted")
        complete("wrong-result", v)
        data = fs.peek("f.p")
        for c in scn["cuts"]:
            if 0 <= c < len(data):
                fs.poke("f.p", data[:c])
                back = readable()
                why = back and prefix(back, ents)
                expect(not why, "wrong-when-cut", "cut at %d: %s" % (c, why))
        fs.poke("f.p", data)
    else:
        if st == "exc":
            w.probe("convert-error")
            if not impossible and w.fired == before:
                raise Violation("conversion-failed", repr(v))
        back = readable() if fs.exists("f.p") else None
        if back is not None:
            why = prefix(back, ents)
            if why is None:
                w.probe("prefix-after-crash")
            elif scn["old"] and prefix(back, scn["old"]) is None:
                why = None
            expect(why is None, "wrong-after-crash" if crashed else "wrong-after-error", str(why))
    fs.set_phase("again")
    st, v = w.call(pf.sf2pf, "src", "f.p", getname, *sizearg)
    if impossible:
        expect(st == "exc", "impossible-converted", "a null shape or unusable name was converted")
    else:
        expect(st == "ok", "second-conversion-failed", repr(v))
        complete("wrong-second-result", v)
    for e in source:
        expect(fs.peek("src." + e) == source[e], "source-changed", e)
