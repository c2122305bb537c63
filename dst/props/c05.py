"""Shapefiles: what is saved is what every way of reading returns."""
import io

from .. import gens
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS
from .. import patch
from . import shpcommon as sc

ID = "C05"
BUDGET = {"quick": (3250, 75), "thorough": (30000, 420)}
RULE = ("Seeded shapefiles of all 14 types with text and numeric attributes in several encodings, saved by path, by generated name or to file objects, decoded by an "
        "independent parser and read back in every way (index, negative index, lists, iterators, pairs; with and without .shx); then the same with other buffer sizes, "
        "short reads, short writes and interrupted system calls.")
REAL = ["coral.shapefile", "Python io buffering"]
STUB = ["disk and directory tree (dst.fs)", "wall clock", "temporary names"]
ASSUME = ["one shape type per file (plus null shapes), as many records as shapes, texts without surrounding blanks that fit their field, numbers that fit their field",
          "date and logical fields are not covered: their read-back representation is not specified anywhere"]
PROBES = ["null-shape", "empty-file", "kw-record", "z", "m", "multipatch", "no-shx", "file-objects", "generated", "multibyte", "default-type", "copied-fields", "lots"]


def generate(rng, tier):
    if rng.random() < 0.0015:
        # more records than fit in two bytes
        return {"bufsize": 8192, "lots": rng.choice([65536, 65537, 70000]), "t": rng.choice([0, 1]), "faults": []}
    d = sc.gen_data(rng, big=rng.random() < 0.1)
    for s in d["shapes"]:
        if rng.random() < 0.3 and "parts" in s:
            s["tuples"] = True
    return {"bufsize": gens.bufsize(rng) if len(d["shapes"]) < 50 else 8192, "data": d, "target": rng.choice(["path", "path", "ext", "dir", "files", "bytesio", "gen"]),
            "faults": [], "clock": rng.choice([1e9, 0, 86400 * 366, 4e9, 1.7e9]), "order": rng.randrange(1 << 16),
            "copy": rng.random() < 0.25}


def variants(rng, scn, res, tier):
    if "lots" in scn:
        return
    for _ in range(3 if tier == "quick" else 6):
        s = dict(scn)
        s["bufsize"] = gens.bufsize(rng) if len(scn["data"]["shapes"]) < 50 else 512
        s["faults"] = [f for f in gens.faults(rng, res, ("save", "read")) if f["cat"] in ("read", "write")]
        for f in s["faults"]:
            f["kind"] = rng.choice(["short", "eintr", "short"])
        s["target"] = rng.choice(["path", "ext", "dir", "files", "gen"])
        yield s


def lots(scn, w):
    """So many records that counts and offsets need more than two bytes."""
    fs = SimFS(w, [], scn["bufsize"])
    sf = C["shapefile"]
    n, t = scn["lots"], scn["t"]
    w.budget = 10 ** 8
    if not 0 <= n <= 100000 or t not in (0, 1):
        raise Invalid("lots")
    wr = w.must("writer", sf.Writer, 1, encoding="utf-8")
    w.must("field", wr.field, "A", "N", 6)

    def fill():
        for i in range(n):
            if t:
                wr.point(i, -i)
            else:
                wr.null()
            wr.record(i)
    w.must("fill", fill)
    if t:
        w.must("save", wr.save, "map")
    else:
        w.must("save", wr.saveDbf, "map")
    rd = w.must("open", sf.Reader, "map") if t else w.must("open", sf.Reader, dbf=open("map.dbf", "rb"))
    w.probe("lots")
    expect(rd.numRecords == n, "wrong-count", "numRecords %r instead of %d" % (rd.numRecords, n))
    for i in (0, 1, 255, 256, 32768, 65534, n // 2, n - 1):
        r = w.must("record", rd.record, i)
        expect(list(r) == [i], "wrong-record", "record %d is %r" % (i, r))
        if t:
            s = w.must("shape", rd.shape, i)
            expect([list(p) for p in s.points] == [[i, -i]], "wrong-shape", "shape %d is %r" % (i, s.points))
    r = w.must("record", rd.record, -1)
    expect(list(r) == [n - 1], "wrong-record", "record -1 is %r" % (r,))
    expect(w.call(rd.record, n)[0] == "exc", "wrong-record", "record %d exists" % n)
    k = 0
    for k, r in enumerate(rd.iterRecords(), 1):
        if list(r) != [k - 1]:
            raise Violation("wrong-record", "iterated record %d is %r" % (k - 1, r))
    expect(k == n, "wrong-count", "%d records iterated" % k)


def execute(scn, w):
    if "lots" in scn:
        return lots(scn, w)
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    w.clock.now = float(scn["clock"])
    sf = C["shapefile"]
    d = scn["data"]
    shapes, recs = sc.models(d)
    n = len(shapes)
    given = []
    wr = sc.build(w, d, given)
    fs.set_phase("save")
    tg = scn["target"]
    base = "map"
    if tg == "path":
        w.must("save", wr.save, "map")
    elif tg == "ext":
        w.must("save", wr.save, "map.shp")
    elif tg == "dir":
        base = "/sim/out/a b/map"
        fs.dirs.add("/sim/out/a b")
        w.must("save", wr.save, base)
    elif tg == "gen":
        base = w.must("save", wr.save)
        w.probe("generated")
        expect(isinstance(base, str) and fs.exists(base + ".shp"), "generated-name", repr(base))
    elif tg == "bytesio":
        objs = [io.BytesIO() for _ in range(3)]
        w.must("save", wr.save, shp=objs[0], shx=objs[1], dbf=objs[2])
        for o, e in zip(objs, ("shp", "shx", "dbf")):
            fs.poke("map." + e, o.getvalue())
        w.probe("file-objects")
    else:
        objs = [open("map." + e, "wb") for e in ("shp", "shx", "dbf")]
        w.must("save", wr.save, shp=objs[0], shx=objs[1], dbf=objs[2])
        for o in objs:
            expect(not o.closed, "file-object-closed", "")
            o.close()
        w.probe("file-objects")
    for obj, copy in given:
        expect([[list(p) for p in part] for part in obj] == copy, "argument-changed", repr(copy)[:300])
    sc.check_bytes("bad-file", fs, base, d["t"], shapes, d["fields"], recs, d["enc"])
    now = w.clock.now
    dates = {tuple(patch.REAL["gmtime"](x)[:3]) for x in (now, patch.REAL["walltime"]())}
    head = fs.peek(base + ".dbf")
    expect((head[1] + 1900, head[2], head[3]) in dates, "bad-file", "dbf dated %r at %r" % (tuple(head[1:4]), dates))
    for p, c in (("null-shape", any(s["t"] == 0 for s in d["shapes"])), ("empty-file", n == 0), ("kw-record", any(r["kw"] for r in d["records"])),
                 ("z", d["t"] in sc.HASZ), ("m", d["t"] in sc.HASM), ("multipatch", d["t"] == 31),
                 ("multibyte", any(isinstance(v, str) and len(v.encode("utf8")) != len(v) for r in recs for v in r))):
        if c:
            w.probe(p)
    fs.set_phase("read")

    def shp_ok(i, s, how):
        why = sc.shape_diff(shapes[i], s)
        expect(why is None, "wrong-shape", "%s, shape %d: %s" % (how, i, why))

    def rec_ok(i, r, how):
        why = sc.record_diff(recs[i], d["fields"], r)
        expect(why is None, "wrong-record", "%s, record %d: %s" % (how, i, why))

    def seq(got, ok, how):
        expect(len(got) == n, "wrong-count", "%s: %d of %d" % (how, len(got), n))
        for i, x in enumerate(got):
            ok(i, x, how)

    def pair_ok(i, p, how):
        shp_ok(i, p.shape, how)
        rec_ok(i, p.record, how)

    def look(rd, how, shp, dbf):
        acts = []
        if shp:
            expect(rd.shapeType == d["t"], "wrong-type", "%s: %r" % (how, rd.shapeType))
            pts = [p for m in shapes for p in m.get("all", [])]
            box = [min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)] if pts else [0] * 4
            for k, got, has in ((2, rd.elevation, sc.HASZ), (3, rd.measure, sc.HASM)):
                if d["t"] in has:
                    expect(list(got) == sc.rng_of([p[k] for p in pts]), "wrong-range", "%s: %r" % (how, list(got)))
            if n:
                acts.append(lambda: shp_ok(0, w.must("shape", rd.shape), how + " shape()"))
            expect(list(rd.bbox) == box, "wrong-bbox", "%s: %r" % (how, list(rd.bbox)))
            acts.append(lambda: seq(w.must("shapes", rd.shapes), shp_ok, how + " shapes()"))
            acts.append(lambda: seq(w.must("iterShapes", lambda: list(rd.iterShapes())), shp_ok, how + " iterShapes()"))
            acts.append(lambda: [shp_ok(i, w.must("shape", rd.shape, i), how + " shape(i)") for i in range(n)])
            acts.append(lambda: [shp_ok(i, w.must("shape", rd.shape, i - n), how + " shape(-i)") for i in range(n)])
        if dbf:
            expect(rd.numRecords == n, "wrong-count", "%s: numRecords %r" % (how, rd.numRecords))
            why = sc.fields_diff(d["fields"], rd.fields)
            expect(why is None, "wrong-fields", "%s: %s" % (how, why))
            acts.append(lambda: seq(w.must("records", rd.records), rec_ok, how + " records()"))
            acts.append(lambda: seq(w.must("iterRecords", lambda: list(rd.iterRecords())), rec_ok, how + " iterRecords()"))
            acts.append(lambda: [rec_ok(i, w.must("record", rd.record, i), how + " record(i)") for i in range(n)])
            if n:
                acts.append(lambda: rec_ok(0, w.must("record", rd.record), how + " record()"))
            acts.append(lambda: [rec_ok(i, w.must("record", rd.record, i - n), how + " record(-i)") for i in range(n)])
        if shp and dbf:
            if n:
                acts.append(lambda: pair_ok(0, w.must("shapeRecord", rd.shapeRecord), how + " shapeRecord()"))
            acts.append(lambda: seq(w.must("shapeRecords", rd.shapeRecords), pair_ok, how + " shapeRecords()"))
            acts.append(lambda: [pair_ok(i, w.must("shapeRecord", rd.shapeRecord, i), how + " shapeRecord(i)") for i in range(n)])
            acts.append(lambda: [pair_ok(i, w.must("shapeRecord", rd.shapeRecord, i - n), how + " shapeRecord(-i)") for i in range(n)])
        k = scn["order"]
        while acts:
            acts.pop(k % len(acts))()
            k = k * 7 // 3 + 1

    look(w.must("open", sf.Reader, base, encoding=d["enc"]), "by path", True, True)
    look(w.must("open", sf.Reader, base + ".dbf", encoding=d["enc"]), "by path with extension", True, True)
    o = {e: open(base + "." + e, "rb") for e in ("shp", "shx", "dbf")}
    look(w.must("open", sf.Reader, shp=o["shp"], dbf=o["dbf"], encoding=d["enc"]), "without index", True, True)
    w.probe("no-shx")
    look(w.must("open", sf.Reader, shp=o["shp"], shx=o["shx"], dbf=o["dbf"], encoding=d["enc"]), "file objects", True, True)
    look(w.must("open", sf.Reader, shp=o["shp"], encoding=d["enc"]), "shp only", True, False)
    look(w.must("open", sf.Reader, dbf=o["dbf"], encoding=d["enc"]), "dbf only", False, True)

    if scn.get("copy"):
        # the fields of a reader given to a writer, its records written again
        w.probe("copied-fields")
        rd = w.must("open", sf.Reader, base, encoding=d["enc"])
        wr = w.must("writer", sf.Writer, d["t"], encoding=d["enc"])
        wr.fields = [tuple(f) for f in rd.fields] if scn["order"] % 2 else list(rd.fields)
        names = [f[0] for f in wr.fields[1:]]
        for i, r in enumerate(w.must("records", rd.records)):
            sc.add_shape(w, wr, d["t"], d["shapes"][i])
            if (scn["order"] >> 3) % 2:
                w.must("record", wr.record, **dict(zip(names, r)))
            else:
                w.must("record", wr.record, *r)
        w.must("save", wr.save, "copied")
        sc.check_bytes("bad-copy", fs, "copied", d["t"], shapes, [[f[0].replace(" ", "_")] + f[1:] for f in d["fields"]], recs, d["enc"])
        look(w.must("open", sf.Reader, "copied", encoding=d["enc"]), "copied", True, True)
