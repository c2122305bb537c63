"""Shapefiles: reads are independent of other reads and of earlier read errors."""
from .. import gens
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import shpcommon as sc

ID = "C06"
BUDGET = {"quick": (2500, 75), "thorough": (24000, 420)}
RULE = ("Seeded histories over one or several readers: up to six shape and record iterators consumed in turns, mixed with indexed, list and pair reads, out-of-range "
        "indexes and loading another shapefile; then the same with open/read/seek errors, short reads and other buffer sizes.")
REAL = ["coral.shapefile.Reader", "coral.shapefile.Writer (to make the files)", "Python io buffering"]
STUB = ["disk and directory tree (dst.fs)", "wall clock"]
ASSUME = ["an iterator that raised, or whose reader loaded another shapefile since, is not used again",
          "after a load that failed the reader is on the previous or on the new shapefile, not on a mix of both"]
PROBES = ["read-error", "short", "interleaved", "loaded", "load-failed", "oob", "no-shx", "deleted"]


def generate(rng, tier):
    sets = []
    for i in range(rng.choice([1, 2, 2])):
        d = sc.gen_data(rng, t=rng.choice([1, 3, 5, 5, 8, 15, 23]), nmax=5)
        if not d["shapes"]:
            d = sc.gen_data(rng, t=5)
        d["enc"] = "utf-8" if i else d["enc"]
        d["deleted"] = [rng.randrange(len(d["shapes"]))] if d["shapes"] and rng.random() < 0.15 else []
        sets.append(d)
    for d in sets[1:]:
        for r in d["records"]:
            r["v"] = [sc.gen_value(rng, f, sets[0]["enc"]).encode("ascii", "ignore").decode().strip() if f[1] == "C" else sc.gen_value(rng, f, "utf-8")
                      for f in d["fields"]]
    readers = [[rng.randrange(len(sets)), rng.choice(["path", "path", "noshx", "files", "shp", "dbf"])] for _ in range(rng.choice([1, 1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([6, 12, 25, 40])):
        r = rng.randrange(len(readers))
        k = rng.random()
        i = rng.randrange(8)
        if k < 0.15:
            ops.append([rng.choice(["iterS", "iterR"]), r, rng.randrange(3)])
        elif k < 0.55:
            ops.append(["next", r, rng.randrange(3)])
        elif k < 0.8:
            ops.append([rng.choice(["shape", "record", "pair"]), r, i, rng.random() < 0.3])
        elif k < 0.9:
            ops.append([rng.choice(["shapes", "records", "pairs"]), r])
        elif k < 0.95:
            ops.append(["load", r, rng.randrange(len(sets))])
        else:
            ops.append(["oob", r, rng.choice(["shape", "record", "pair"]), rng.choice([0, 1, 7, -1, -2])])
    return {"bufsize": gens.bufsize(rng), "sets": sets, "readers": readers, "ops": ops, "faults": []}


def variants(rng, scn, res, tier):
    for _ in range(6 if tier == "quick" else 12):
        s = dict(scn)
        s["faults"] = gens.faults(rng, res, ("read",), ("read", "seek", "open"), persist=0)
        if not s["faults"]:
            return
        if rng.random() < 0.3:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    sf = C["shapefile"]
    sets = []
    fs.set_phase("write")
    for i, d in enumerate(scn["sets"]):
        shapes, recs = sc.models(d)
        w.must("save", sc.build(w, d).save, "s%d" % i)
        for k in d["deleted"]:
            if not 0 <= k < len(recs):
                raise Invalid("deleted")
            b = bytearray(fs.peek("s%d.dbf" % i))
            b[33 + 32 * len(d["fields"]) + k * (1 + sum(int(f[2]) for f in d["fields"]))] = 0x2a
            fs.poke("s%d.dbf" % i, b)
            w.probe("deleted")
        sets.append({"name": "s%d" % i, "shapes": shapes, "recs": recs, "fields": d["fields"], "t": d["t"], "n": len(recs),
                     "live": [k for k in range(len(recs)) if k not in d["deleted"]]})
    fs.set_phase("read")

    class Slot:
        """One reader and what it may be reading."""
        def __init__(self, spec):
            self.spec, self.rd, self.cands, self.iters = spec, None, [], {}
            self.shp, self.dbf = True, True

    slots = [Slot(r) for r in scn["readers"]]

    def attempt(fn, *a):
        before = gens.errors_fired(w)
        st, v = w.call(fn, *a)
        if st == "exc" and gens.errors_fired(w) > before:
            w.probe("read-error")
            return "fault", v
        return st, v

    def judge(sl, why_of, how):
        """why_of(set) -> None if what was read is right for that set."""
        whys = []
        keep = []
        for c in sl.cands:
            x = why_of(sets[c])
            if x is None:
                keep.append(c)
            else:
                whys.append(x)
        if not keep:
            raise Violation("wrong-read", "%s: %s" % (how, whys[0]))
        sl.cands = keep

    def open_reader(sl):
        if sl.spec[0] >= len(sets):
            raise Invalid("set")
        s = sets[sl.spec[0]]
        enc = scn["sets"][sl.spec[0]]["enc"]
        mode = sl.spec[1]
        if mode == "path":
            st, v = attempt(lambda: sf.Reader(s["name"], encoding=enc))
        else:
            try:
                exts = {"noshx": ("shp", "dbf"), "files": ("shp", "shx", "dbf"), "shp": ("shp",), "dbf": ("dbf",)}[mode]
                objs = {e: open(s["name"] + "." + e, "rb") for e in exts}
            except OSError:
                return False
            st, v = attempt(lambda: sf.Reader(encoding=enc, **objs))
            sl.shp, sl.dbf = "shp" in exts, "dbf" in exts
            if mode in ("noshx", "shp"):
                w.probe("no-shx")
        if st == "exc":
            raise Violation("open-failed", repr(v))
        if st == "fault":
            return False
        sl.rd, sl.cands = v, [sl.spec[0]]
        return True

    def shape_why(s, i, x):
        return "no shape %d" % i if i >= s["n"] else sc.shape_diff(s["shapes"][i], x)

    def rec_why(s, i, x):
        if i >= s["n"]:
            return "no record %d" % i
        if i not in s["live"]:
            return None if x is None else "record %d is deleted, got %r" % (i, x)
        return "no record" if x is None else sc.record_diff(s["recs"][i], s["fields"], x)

    def pair_why(s, i, x):
        try:
            a, b = x.shape, x.record
        except AttributeError:
            return "no pair: %r" % (x,)
        return shape_why(s, i, a) or rec_why(s, i, b)

    def list_why(s, want, got, one):
        if len(got) != len(want):
            return "%d items instead of %d" % (len(got), len(want))
        for i, x in zip(want, got):
            y = one(s, i, x)
            if y:
                return "item %d: %s" % (i, y)
        return None

    def own(x):
        """What was returned belongs to the caller, who may well change it."""
        if isinstance(x, list):
            x.clear()
        for name in ("points", "record"):
            v = getattr(x, name, None)
            if isinstance(v, list):
                v.clear()
        if hasattr(x, "shape"):
            own(x.shape)

    last = [None]

    def step(sl, op):
        rd = sl.rd
        k = op[0]
        need_shp, need_dbf = k in ("iterS", "shape", "pair", "shapes", "pairs"), k in ("iterR", "record", "pair", "records", "pairs")
        if k == "oob":
            need_shp, need_dbf = op[2] in ("shape", "pair"), op[2] in ("record", "pair")
        if need_shp and not sl.shp or need_dbf and not sl.dbf:
            return
        n = sets[sl.cands[0]]["n"]
        if k in ("iterS", "iterR"):
            st, v = attempt(rd.iterShapes if k == "iterS" else rd.iterRecords)
            if st == "exc":
                raise Violation("read-failed", "%s: %r" % (k, v))
            if st == "ok":
                sl.iters[op[2]] = [k, v, 0]
        elif k == "next":
            it = sl.iters.get(op[2])
            if it is None:
                return
            if last[0] is not None and last[0] is not it:
                w.probe("interleaved")
            last[0] = it
            end = object()
            st, v = attempt(next, it[1], end)
            if st == "exc":
                raise Violation("read-failed", "%s: %r" % (it[0], v))
            if st == "fault":
                del sl.iters[op[2]]
                return
            pos = it[2]
            it[2] += 1

            def why(s):
                want = list(range(s["n"])) if it[0] == "iterS" else s["live"]
                if v is end:
                    return None if pos == len(want) else "%s ended after %d of %d" % (it[0], pos, len(want))
                if pos >= len(want):
                    return "%s goes on after the end" % it[0]
                return (shape_why if it[0] == "iterS" else rec_why)(s, want[pos], v)
            judge(sl, why, "%s step %d" % (it[0], pos))
            own(v)
            if v is end:
                del sl.iters[op[2]]
        elif k in ("shape", "record", "pair"):
            if len({sets[c]["n"] for c in sl.cands}) > 1 or not n:
                return
            i = op[2] % n
            fn = {"shape": rd.shape, "record": rd.record, "pair": rd.shapeRecord}[k]
            st, v = attempt(fn, i - n if op[3] else i)
            if st == "exc":
                raise Violation("read-failed", "%s %d: %r" % (k, i, v))
            if st == "ok":
                one = {"shape": shape_why, "record": rec_why, "pair": pair_why}[k]
                judge(sl, lambda s: one(s, i, v), "%s %d" % (k, i))
                own(v)
        elif k in ("shapes", "records", "pairs"):
            st, v = attempt({"shapes": rd.shapes, "records": rd.records, "pairs": rd.shapeRecords}[k])
            if st == "exc":
                raise Violation("read-failed", "%s: %r" % (k, v))
            if st == "ok":
                one = {"shapes": shape_why, "records": rec_why, "pairs": pair_why}[k]
                judge(sl, lambda s: list_why(s, range(s["n"]) if k == "shapes" else s["live"], v, one), k)
                for x in v[::2]:
                    own(x)
                if isinstance(v, list):
                    v.clear()
        elif k == "oob":
            m = max(sets[c]["n"] for c in sl.cands)
            i = m + op[3] if op[3] >= 0 else -m + op[3]
            st, v = attempt({"shape": rd.shape, "record": rd.record, "pair": rd.shapeRecord}[op[2]], i)
            w.probe("oob")
            if st == "ok" or st == "exc" and not isinstance(v, IndexError):
                raise Violation("index-out-of-range", "%s %d of %d: %r" % (op[2], i, m, v))
        elif k == "load":
            if op[2] >= len(sets):
                return
            sl.iters.clear()
            if scn["sets"][op[2]]["enc"] != "utf-8" and scn["sets"][sl.cands[0]]["enc"] != scn["sets"][op[2]]["enc"]:
                return
            st, v = attempt(rd.load, sets[op[2]]["name"])
            if st == "exc":
                raise Violation("load-failed", repr(v))
            if st == "fault":
                w.probe("load-failed")
                sl.cands = sl.cands + [op[2]]
                # the readers made from single files may now have all or still only one
                if not (sl.shp and sl.dbf):
                    sl.rd = None
                    sl.shp = sl.dbf = True
            else:
                w.probe("loaded")
                sl.cands = [op[2]]
                sl.shp = sl.dbf = True

    for op in scn["ops"]:
        if op[1] >= len(slots):
            continue
        sl = slots[op[1]]
        if sl.rd is None and not open_reader(sl):
            continue
        step(sl, op)
    fs.set_phase("final")
    if any(k.endswith("short") for k in w.fired):
        w.probe("short")
    for sl in slots:
        if sl.rd is None and not open_reader(sl):
            raise Violation("open-failed", "after the faults")
        for i in sorted(sl.iters):
            while i in sl.iters:
                step(sl, ["next", 0, i])
        step(sl, ["shapes", 0])
        step(sl, ["records", 0])
        for i in reversed(range(sets[sl.cands[0]]["n"])):
            step(sl, ["shape", 0, i, False])
            step(sl, ["record", 0, i, False])
        step(sl, ["pairs", 0])
        if sl.shp:
            expect(any(sl.rd.shapeType == sets[c]["t"] for c in sl.cands), "stale-header", "shape type %r" % sl.rd.shapeType)
        if sl.dbf:
            why = [sc.fields_diff(sets[c]["fields"], sl.rd.fields) for c in sl.cands]
            expect(None in why, "stale-header", str(why[0]))
