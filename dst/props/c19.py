"""Separate objects used from separate threads do not interfere."""
import collections
import os
import pickle

from .. import gens, patch, proc
from ..core import Clock, Invalid, ThreadAbort, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import c10, c12, c13, c15, c16, c18
from . import pfcommon as pc
from . import rgcommon as rc
from . import shpcommon as sc

ID = "C19"
BUDGET = {"quick": (2250, 75), "thorough": (20000, 480)}
RULE = ("2-4 seeded programs per run (data-set, P-file, shapefile and table writers and readers, conversions, vector and raster canvases, exports, progress bars, simplification streams, frames, statistics; "
        "often several of the same kind, several readers of one shared file), each first run alone in a process of its own; then together in one process, one after the other and pre-empted at random source "
        "lines and system calls, with I/O errors hitting some of them.  Every value returned and every byte written by a program not hit by a fault must equal the lonely run.")
REAL = ["coral.rg", "coral.grid", "coral.pf", "coral.shapefile", "coral.vector", "coral.raster", "coral.tqdm", "coral.coord", "coral.table", "coral.stats", "coral.frame", "coral.proj", "coral.bbox", "coral.names", "coral.gradient", "Python io buffering"]
STUB = ["disk (dst.fs)", "Ghostscript and convert (dst.proc)", "thread scheduler (dst.core)", "one clock per thread"]
ASSUME = ["programs share no object and no output path"]
PROBES = ["same-kind", "threads", "shared-file", "fault", "unhit-compared"] + ["kind:" + k for k in ("rg", "pf", "shp", "conv", "vec", "ras", "bar", "simp", "tab", "stat", "frame", "read", "geo", "words", "grad")]
NOSHRINK = ("k", "t", "src", "anchor", "mode", "proj")
KINDS = ["rg", "pf", "shp", "shp", "conv", "vec", "vec", "ras", "bar", "simp", "tab", "stat", "frame", "read", "read", "geo", "geo", "words", "grad"]


def gen_prog(rng, k):
    p = {"k": k}
    if k == "rg":
        p["cols"] = rc.gen_cols(rng)
        p["ents"] = rc.gen_ents(rng, p["cols"], 4)
        p["bad"] = rng.random() < 0.3
    elif k == "pf":
        p["ents"], p["size"] = pc.gen_ents(rng), rng.choice([1, 2, 4, 8])
    elif k == "shp":
        p["data"] = sc.gen_data(rng, nmax=4)
        p["saves"] = rng.choice([1, 2])
    elif k == "conv":
        p["polys"] = [[[[round(rng.uniform(-100, 100), 3), round(rng.uniform(-60, 60), 3)] for _ in range(rng.choice([3, 4, 6]))] for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 2, 4]))]
        p["size"] = rng.choice([2, 4])
    elif k == "vec":
        p["bg"] = rng.choice([None, 1, [0, 0, 1]])
        p["ops"] = []
        for _ in range(rng.choice([2, 4, 8])):
            r = rng.random()
            if r < 0.65:
                it = c10.gen_item(rng, 0)
                if not (it[0] == "round" and len(it[2]) > 10):
                    p["ops"].append(["item", it])
            elif r < 0.75:
                p["ops"].append(["ink", c10.gen_ink(rng)])
            elif r < 0.85:
                p["ops"].append(["dash", rng.choice([[], [3], [3, 1]]), rng.choice([0, 1])])
            elif r < 0.9:
                p["ops"].append(["copy"])
            elif r < 0.95:
                p["ops"].append(["save", rng.choice([None, 100]), rng.choice([0, 5])])
            else:
                p["ops"].append(["export", rng.choice(["png256", "pdfwrite"])])
    elif k == "ras":
        t = rng.choice(["bw", "gray", "color"])
        W, H = rng.choice([3, 8, 9, 17]), rng.choice([2, 5, 9])
        p.update(t=t, w=W, h=H, bg=None if rng.random() < 0.4 else c15.gen_color(rng, t), ops=[])
        pt = lambda: [rng.randrange(W), rng.randrange(H)]
        for _ in range(rng.choice([2, 5, 9])):
            p["ops"].append([rng.choice(["set", "line", "line", "rect", "save", "stroke"]), pt(), pt(), c15.gen_color(rng, t)])
    elif k == "bar":
        p.update(n=rng.choice([0, 1, 3, 12]), dt=[rng.choice([0, 1, 5, 40, 64]) for _ in range(3)], desc=rng.choice(["", "work"]), total=rng.choice([None, 5]), leave=rng.random() < 0.6, mi=rng.choice([None, 0, 1]),
                 it=rng.choice([None, 0, 1]), gen=rng.random() < 0.5)
    elif k == "simp":
        p.update(pts=c18.walk(rng, rng.choice([0, 1, 5, 20, 40])), m=rng.choice([1, 2, 0.5]), k2=rng.choice([None, 1, 2, 4]), closed=False)
    elif k == "tab":
        p.update(keys=rng.sample(c13.KEYS, rng.choice([1, 2, 3])), rows=[], sep=rng.choice([",", ";", "\t"]))
        p["rows"] = [["v%d" % rng.randrange(9) for _ in p["keys"]] for _ in range(rng.choice([1, 2, 5]))]
    elif k == "stat":
        p["seqs"] = [[c16.value(rng, rng.choice(["int", "pos", "float"])) for _ in range(rng.choice([2, 3, 5]))] for _ in range(rng.choice([2, 4, 8]))]
        p["calls"] = [[rng.choice(c16.ONE + c16.TWO), rng.randrange(8), rng.randrange(8)] for _ in range(rng.choice([3, 10]))] + [["clear", 0, 0]] * (rng.random() < 0.3)
        rng.shuffle(p["calls"])
    elif k == "frame":
        p.update(proj=rng.choice(["Mercator", "TransMercator", "EMercator", "EckertIV", "Stereographic", "AzimuthalEqualArea"]), c=[rng.randint(-100, 100), rng.randint(-60, 60)], ents=[])
        for e in pc.gen_ents(rng):
            p["ents"].append({"name": e["name"], "polys": [[[rng.uniform(-40, 40), rng.uniform(-30, 30)] for _ in range(3)]]})
    elif k == "read":
        p["ops"] = [rng.choice(["rg", "rgid", "pf", "shp", "shp", "rec", "iter", "pairs", "tab"]) for _ in range(rng.choice([2, 5, 9]))]
        p["idx"] = [rng.randrange(6) for _ in range(9)]
    elif k == "geo":
        p["pts"] = [[rng.randint(-150, 150), rng.randint(-70, 70)] for _ in range(rng.choice([2, 4]))]
        p["ops"] = []
        for _ in range(rng.choice([2, 5, 9])):
            r = rng.random()
            e = rng.choice([None, None, "GRS80", [6378206, 6356583], [1000, 900]])
            if r < 0.2:
                p["ops"].append(["radius", rng.randint(-80, 80), e])
            elif r < 0.5:
                p["ops"].append(["dist", rng.choice([None, None, 1, 1000])])
            elif r < 0.85:
                p["ops"].append(["proj", rng.choice(PROJS), rng.choice([None, 0, 1]), rng.choice([None, None, 1, 1000]), e])
            else:
                p["ops"].append(["area", rng.choice([None, 1e-6])])
    elif k == "words":
        word = lambda: "".join(rng.choice("abcxy \xe1\xc7") for _ in range(rng.choice([1, 2, 4, 7])))
        p["words"] = [word() for _ in range(rng.choice([2, 3, 5]))]
        p["names"] = [word() for _ in range(rng.choice([1, 2, 4]))]
    elif k == "grad":
        p["points"] = [[rng.randint(0, 16) / 16, [rng.randint(0, 4) / 4 for _ in range(3)]] for _ in range(rng.choice([1, 2, 4]))]
        p["xs"] = [rng.randint(0, 32) / 32 for _ in range(rng.choice([1, 3, 6]))]
        p["stock"] = rng.sample(["gray", "bwr", "heat", "height"], 2)
    return p


PROJS = ["Mercator", "EMercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea", "ConicEqualArea"]


def generate(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    if rng.random() < 0.55:
        k = rng.choice(KINDS)
        ks = [k] * n
        if n > 2:
            ks[-1] = rng.choice(KINDS)
    else:
        ks = [rng.choice(KINDS) for _ in range(n)]
    progs = [gen_prog(rng, k) for k in ks]
    if rng.random() < 0.2:
        progs[-1] = dict(progs[0])
    cols = rc.gen_cols(rng)
    poly = sc.gen_data(rng, t=rng.choice([1, 3, 5, 8, 15]), nmax=5)
    poly["enc"] = "utf-8"
    shared = {"cols": cols, "ents": rc.gen_ents(rng, cols, 5), "pents": pc.gen_ents(rng), "data": poly, "rows": [["a%d" % i, "b"] for i in range(rng.choice([1, 4]))]}
    return {"bufsize": gens.bufsize(rng), "progs": progs, "shared": shared, "preempt": [], "lines": rng.random() < 0.75, "faults": []}


def variants(rng, scn, res, tier):
    n = len(scn["progs"])
    for i in range(4 if tier == "quick" else 8):
        s = dict(scn)
        s["preempt"] = gens.preempts(rng, res["steps"], n, rng.choice([2, 10, 60, 300]))
        if rng.random() < 0.3:
            s["faults"] = gens.faults(rng, res, ("run",), persist=0)
        if rng.random() < 0.15:
            s["progs"] = list(scn["progs"])
            rng.shuffle(s["progs"])
            s["faults"] = []
        yield s


class Clocks(Clock):
    """A clock per client: what one thread waits for does not move another's time."""

    def __init__(self, w):
        super().__init__()
        self.w, self.off, self.key = w, collections.defaultdict(float), None

    def _k(self):
        return self.w.sched.cur if self.w.sched.active else self.key

    def advance(self, dt):
        self.off[self._k()] += dt
        self.forward += max(0, dt)

    def time(self):
        return 1.0e9 + self.off[self._k()]

    monotonic = time


def plain(v):
    """Values as text that does not depend on identities."""
    if isinstance(v, (list, tuple)):
        return "[%s]" % " ".join(map(plain, v))
    if isinstance(v, dict):
        return "{%s}" % " ".join("%s:%s" % (plain(k), plain(x)) for k, x in v.items())
    if isinstance(v, (bytes, bytearray)):
        return repr(bytes(v))
    if isinstance(v, (int, float, str, type(None), bool)):
        return repr(v)
    if hasattr(v, "shapeType"):
        return "shape(%s)" % " ".join(plain(getattr(v, a, "-")) for a in ("shapeType", "points", "parts", "bbox", "z", "zbox", "m", "mbox", "partTypes"))
    if hasattr(v, "record") and hasattr(v, "shape"):
        return "pair(%s %s)" % (plain(v.record), plain(v.shape))
    try:
        return "[%s]" % " ".join(plain(x) for x in v)
    except TypeError:
        return "<%s>" % type(v).__name__


class Failed(Exception):
    """A fault hit this program; it stops here."""


def hit_by(w, c):
    return any(k.rsplit(":", 1)[-1] in gens.ERROR_KINDS for k in w.fired_by.get(c, ()))


def program(w, i, p, log):
    d = "p%d/" % i
    k = p["k"]

    def do(what, fn, *a, **kw):
        try:
            r = fn(*a, **kw)
        except (Violation, Invalid, ThreadAbort):
            raise
        except Exception as e:
            e.__traceback__ = None
            log.append("%s: %s: %s" % (what, type(e).__name__, e))
            if w.sched.active and hit_by(w, w.sched.cur):
                raise Failed()
            return None
        log.append("%s: %s" % (what, plain(r)))
        return r

    def obj(what, fn, *a, **kw):
        try:
            return fn(*a, **kw)
        except Exception as e:
            e.__traceback__ = None
            log.append("%s: %s: %s" % (what, type(e).__name__, e))
            raise Failed()

    if k == "rg":
        rc.check_scn(p)
        row = rc.make_row(p["cols"])
        wr = obj("Writer", C["rg"].Writer, d + "ds", row)
        for n, e in enumerate(p["ents"]):
            do("write", wr.write, [[tuple(r) for r in s] for s in e["segs"]], *([] if e["id"] is None else [e["id"]]))
            if p["bad"] and n == 0:
                do("bad", wr.write, [[("x",) * 9]], "bad")
        do("close", wr.close)
        rd = obj("Reader", C["rg"].Reader, d + "ds")
        log.append(plain([getattr(v, "name", "?") for v in getattr(rd.grow, "vars", [])]) if hasattr(rd, "grow") else "")
        for n in range(len(p["ents"]) + 1):
            do("next", rd.read)
        for e in p["ents"]:
            if e["id"] is not None:
                do("id", rd.read, str(e["id"]))
    elif k == "pf":
        pc.check_ents(p["ents"])
        wr = obj("Writer", C["pf"].Writer, d + "f.p", p["size"])
        for e in p["ents"]:
            do("write", wr.write, e["name"], [[tuple(q) for q in poly] for poly in e["polys"]])
        do("close", wr.close)
        rd = obj("Reader", C["pf"].Reader, d + "f.p")
        do("names", list, rd.names)
        for n, e in enumerate(p["ents"]):
            do("get", rd.get, e["name"])
            do("read", rd.read, len(p["ents"]) - 1 - n)
    elif k == "shp":
        D = p["data"]
        if len(D["shapes"]) != len(D["records"]) or not D["fields"]:
            raise Invalid("data")
        wr = sc.build(w, D)
        for n in range(p["saves"]):
            do("save", wr.save, d + "s")
            rd = obj("Reader", C["shapefile"].Reader, d + "s", encoding=D["enc"])
            do("fields", list, rd.fields)
            do("pairs", lambda: [sr for sr in rd.shapeRecords()])
            do("iter", lambda: [(s.points, r) for s, r in zip(rd.iterShapes(), rd.iterRecords())])
            if D["shapes"]:
                do("shape", rd.shape, len(D["shapes"]) - 1)
                do("record", rd.record, 0)
                sc.add_shape(w, wr, D["t"], D["shapes"][0])
                sc.add_record(w, wr, D["fields"], D["records"][0])
            rd.__del__() if hasattr(rd, "__del__") else None
    elif k == "conv":
        wr = obj("Writer", C["shapefile"].Writer, 5)
        wr.field("NAME", "C", "20")
        for n, parts in enumerate(p["polys"]):
            wr.poly([[list(q) for q in part] for part in parts])
            wr.record("e%d" % n)
        do("save", wr.save, d + "c")
        do("sf2pf", C["pf"].sf2pf, d + "c", d + "c.p", lambda r: r[0], p["size"])
        rd = obj("Reader", C["pf"].Reader, d + "c.p")
        for n in range(len(p["polys"])):
            do("get", rd.get, "e%d" % n)
    elif k == "vec":
        cvs = [obj("Canvas", C["vector"].Canvas, *([] if p["bg"] is None else [c10.ink_arg(p["bg"])]))]
        ms = [c10.Model(p["bg"])]
        for n, op in enumerate(p["ops"] + [["save", None, 0]]):
            cv = cvs[-1]
            if op[0] == "item":
                if c10.origin_only(op[1]):
                    raise Invalid("origin")
                try:
                    c10.apply_item(w, op[1], cv, ms[-1])
                except Violation as v:
                    log.append("item: " + str(v.args))
            elif op[0] == "ink":
                do("ink", cv.setink, c10.ink_arg(op[1]))
            elif op[0] == "dash":
                do("dash", cv.setdash, list(op[1]), op[2])
            elif op[0] == "copy":
                cvs.append(obj("copy", cv.copy))
                ms.append(ms[-1].copy())
            elif op[0] == "save":
                for m, c in enumerate(cvs):
                    kw = {} if op[1] is None or ms[m].box is None or ms[m].box[0] == ms[m].box[2] or ms[m].box[1] == ms[m].box[3] else {"size": op[1]}
                    do("save", c.save, d + "v%d.%d.eps" % (n, m), margin=op[2], **kw)
            else:
                do("export", cv.export, d + "x%d.img" % n, device=op[1])
    elif k == "ras":
        R = C["raster"]
        t = p["t"]
        if p["w"] < 1 or p["h"] < 1:
            raise Invalid("size")
        col = lambda v: tuple(v) if isinstance(v, list) else v
        cv = obj("canvas", {"bw": R.BWCanvas, "gray": R.GrayCanvas, "color": R.ColorCanvas}[t], p["w"], p["h"], *([] if p["bg"] is None else [col(p["bg"])]))
        for n, (op, a, b, v) in enumerate(p["ops"] + [["save", [0, 0], [0, 0], 0]]):
            if op == "set":
                do("set", cv.__setitem__, tuple(a), col(v))
            elif op == "line":
                do("line", cv.line, tuple(a), tuple(b), col(v))
            elif op == "stroke":
                do("stroke", cv.strokepolygon, [tuple(a), tuple(b), (0, 0)], col(v), False)
            elif op == "rect":
                x0, x1, y0, y1 = min(a[0], b[0]), max(a[0], b[0]) + 1, min(a[1], b[1]), max(a[1], b[1]) + 1
                do("rect", lambda: cv.fillpolygons(cv.scanpolygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]), col(v)))
            else:
                do("save", cv.save, d + "r%d.pnm" % n)
            do("pixels", lambda: [cv[x, y] for y in range(p["h"]) for x in range(p["w"])])
    elif k == "bar":
        term = c12.Term()

        def src():
            for n in range(p["n"]):
                w.clock.advance(p["dt"][n % len(p["dt"])] / 64.0 if p["dt"] else 0)
                yield n
        kw = {"file": term, "desc": p["desc"], "leave": p["leave"]}
        for a, b in (("total", p["total"]), ("mininterval", p["mi"]), ("miniters", p["it"])):
            if b is not None:
                kw[a] = b
        got = do("bar", lambda: list(C["tqdm"].tqdm(src() if p["gen"] else list(range(p["n"])), **kw)))
        log.append(repr((term.rows, term.updates)))
    elif k == "simp":
        kw = {} if p["k2"] is None else {"k": p["k2"]}
        it = C["coord"].simplify((tuple(q) for q in p["pts"]), p["m"], **kw)
        do("simplify", lambda: [v for v in it])
    elif k == "tab":
        T = C["table"]
        if not p["keys"] or any(len(r) != len(p["keys"]) for r in p["rows"]):
            raise Invalid("table")
        Row = collections.namedtuple("Row", p["keys"])
        t = [Row(*r) for r in p["rows"]]
        do("write", T.writefile, d + "t.csv", t, sep=p["sep"])
        u = do("read", lambda: list(T.readfile(d + "t.csv", sep=p["sep"])))
        u = u or t
        do("read1", lambda: list(T.readfile(d + "t.csv", keys=[p["keys"][-1]], sep=p["sep"])))
        do("getall", lambda: list(T.getall(u, p["keys"][0], p["rows"][0][0])))
        do("indexby", lambda: dict(T.indexby(u, p["keys"][0])))
        do("addkey", lambda: list(T.addkey(u, "new", lambda r: r[0] * 2)))
        do("delkeys", lambda: list(T.delkeys(u, p["keys"][:-1])))
        do("join", lambda: list(T.join(u, t, [p["keys"][0]])))
    elif k == "stat":
        S = C["stats"]
        for name, a, b in p["calls"]:
            if name == "clear":
                do("clear", S.cache_clear)
                continue
            x = tuple(p["seqs"][a % len(p["seqs"])])
            y = tuple(p["seqs"][b % len(p["seqs"])])[:len(x)]
            if name in c16.TWO:
                n = min(len(x), len(y))
                do(name, getattr(S, name), x[:n], y[:n])
            else:
                do(name, getattr(S, name), x)
    elif k == "frame":
        F, P, B = C["frame"], C["proj"], C["bbox"]
        prj = obj("proj", getattr(P, p["proj"]), tuple(p["c"]))
        f = obj("frame", F.Frame, prj, B.BBox((-2e6, -1e6), (1e6, 2e6)))
        do("save", f.save, d + "f.frm")
        g = obj("load", F.load, d + "f.frm")
        do("point", g.point, 1000, (p["c"][0] + 3, p["c"][1] + 2))
        do("planify", lambda: list(g.planify(1000, [(p["c"][0] + a, p["c"][1] + b) for a, b in ((1, 1), (3, 1), (3, 4), (2, 2), (1, 1))], closed=False)))
        do("planify", lambda: list(g.planify(1000, [(p["c"][0] + 3 * ((i * 7) % 5 - 2), p["c"][1] + i % 4) for i in range(12)])))
        do("save", g.save, d + "g.frm")
    elif k == "read":
        rg = pf = sf = None
        its = []
        for n, op in enumerate(p["ops"]):
            x = p["idx"][n % len(p["idx"])] if p["idx"] else 0
            if op in ("rg", "rgid"):
                if rg is None:
                    rg = obj("rg", C["rg"].Reader, "shared/ds")
                do("rg", rg.read, *([] if op == "rg" else ["35"]))
            elif op == "pf":
                if pf is None:
                    pf = obj("pf", C["pf"].Reader, "shared/f.p")
                do("pf", pf.read, x % max(1, len(pf.names)))
            elif op == "tab":
                do("tab", lambda: list(C["table"].readfile("shared/t.csv")))
            else:
                if sf is None:
                    sf = obj("shp", C["shapefile"].Reader, "shared/s")
                if op == "shp":
                    do("shape", sf.shape, x)
                elif op == "rec":
                    do("record", sf.record, x)
                elif op == "pairs":
                    do("pairs", lambda: list(sf.shapeRecords()))
                elif op == "iter":
                    if not its:
                        its.append(sf.iterShapes())
                    do("iter", next, its[0], None)
    elif k == "geo":
        co = C["coord"]
        for a, b in zip(p["pts"], p["pts"][1:]):
            do("dist", co.haversine, *a, *b)
            do("bearing", co.bearing, *a, *b)
            do("mid", co.midpoint, *a, *b)
            do("dest", co.destination, *a, 30, 100000)
        do("box", lambda: repr(C["bbox"].BBox([tuple(q) for q in p["pts"]])))
        do("centroid", co.geocentroid, [[(0, 0), (0, 10), (10, 10), (10, 0)]])
        P = C["proj"]

        def ell(e):
            return P.GRS80 if e == "GRS80" else P.Ellipsoid(e[0], e[1], (1 - e[1] ** 2 / e[0] ** 2) ** 0.5, 1 - e[1] / e[0])
        for op in p["ops"]:
            if op[0] == "radius":
                do("radius", co.radiusat, op[1], *([] if op[2] is None else [ell(op[2])]))
            elif op[0] == "dist":
                for a, b in zip(p["pts"], p["pts"][1:]):
                    do("dist", co.haversine, *a, *b, *([] if op[1] is None else [op[1]]))
                    do("dest", co.destination, *a, 75, 1, *([] if op[1] is None else [op[1]]))
                    do("side", co.bearing2cardinal, co.bearing(*a, *b))
            elif op[0] == "area":
                tri = [tuple(q) for q in p["pts"][:3]]
                box = C["bbox"].BBox(tri)
                do("center", box.center)
                do("or", lambda: repr(box | C["bbox"].BBox((0, 0), (1, 1))))
            else:
                kw = {}
                if op[1] == "EMercator":
                    if op[4] is not None:
                        kw["ellipsoid"] = ell(op[4])
                elif op[3] is not None:
                    kw["radius"] = op[3]
                if op[2] is not None:
                    a = p["pts"][op[2] % len(p["pts"])]
                    kw["parallels" if op[1] == "ConicEqualArea" else "origin"] = (20, 50) if op[1] == "ConicEqualArea" else tuple(a)
                elif op[1] == "ConicEqualArea":
                    kw["parallels"] = (-10, 40)
                pr = obj("proj", getattr(P, op[1]), **kw)
                for a in p["pts"]:
                    q = do("rect", pr.geo2rect, *a)
                    if q is not None:
                        do("geo", pr.rect2geo, *q)
    elif k == "words":
        N = C["names"]
        for a, b in zip(p["words"], p["words"][1:]):
            for f in ("damlev", "strerr", "jaro", "jaro_winkler"):
                do(f, getattr(N, f), a, b)
            do("ascii", N.ascii, a)
        do("mapping", N.mapping, p["words"], p["names"])
    elif k == "grad":
        G = C["gradient"]
        g = obj("grad", G.Gradient, [(q[0], tuple(q[1])) for q in p["points"]])
        for x in p["xs"]:
            for name in [None] + p["stock"]:
                h = g if name is None else getattr(G, name)
                do("get", h.get, x)
                do("hex", h.get_hex, x)
    else:
        raise Invalid("kind")


def files(fs, i):
    pre = "/sim/work/p%d/" % i
    return sorted((p, bytes(n.data)) for p, n in fs.files.items() if p.startswith(pre))


def alone(w, i, p, fn):
    """The program in a process of its own."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = ("ok", fn())
            except (Violation, Invalid) as e:
                out = (type(e).__name__, e.args)
            except BaseException as e:
                out = ("exc", "%s: %s" % (type(e).__name__, e))
            data = pickle.dumps(out)
            while data:
                data = data[patch.REAL["write"](wr, data):]
        finally:
            os._exit(0)
    patch.REAL["close"](wr)
    buf = []
    while True:
        b = patch.REAL["read"](r, 1 << 16)
        if not b:
            break
        buf.append(b)
    patch.REAL["close"](r)
    os.waitpid(pid, 0)
    if not buf:
        raise Violation("no-progress", "program %d alone gave no result" % i)
    st, v = pickle.loads(b"".join(buf))
    if st == "Violation":
        raise Violation(*v)
    if st == "Invalid":
        raise Invalid(*v)
    if st == "exc":
        raise RuntimeError("alone: " + v)
    return v


def execute(scn, w):
    progs = scn["progs"]
    n = len(progs)
    if not 1 <= n <= 6:
        raise Invalid("programs")
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    proc.Procs(w)
    w.clock = Clocks(w)
    # files shared by all readers, written by code of another run
    S = scn["shared"]

    def setup():
        fs.dirs.update({"/sim/work/shared"} | {"/sim/work/p%d" % i for i in range(n)})
        rc.check_scn(S)
        pc.check_ents(S["pents"])
        row = rc.make_row(S["cols"])
        wr = C["rg"].Writer("shared/ds", row)
        for e in S["ents"]:
            wr.write([[tuple(r) for r in s] for s in e["segs"]], *([] if e["id"] is None else [e["id"]]))
        wr.close()
        wr = C["pf"].Writer("shared/f.p", 4)
        for e in S["pents"]:
            wr.write(e["name"], [[tuple(q) for q in poly] for poly in e["polys"]])
        wr.close()
        if len(S["data"]["shapes"]) != len(S["data"]["records"]) or not S["data"]["fields"]:
            raise Invalid("shared")
        sc.build(w, S["data"]).save("shared/s")
        Row = collections.namedtuple("Row", "a b")
        C["table"].writefile("shared/t.csv", [Row(*r) for r in S["rows"]])
        return {p: bytes(x.data) for p, x in fs.files.items()}
    fs.set_phase("setup")
    # written in a process of its own, too: nothing but the programs runs before the programs
    for p, data in sorted(alone(w, -1, None, setup).items()):
        fs.poke(p, data)
    fs.dirs.update({"/sim/work/shared"} | {"/sim/work/p%d" % i for i in range(n)})

    def run(i, p, log):
        try:
            program(w, i, p, log)
        except Failed:
            log.append("stopped")
        return log

    def lonely(i, p):
        fs.faults = []
        fs.phase = "alone"
        w.clock.key = i
        return run(i, p, []), files(fs, i)
    want = [alone(w, i, p, lambda: lonely(i, p)) for i, p in enumerate(progs)]
    ks = [p["k"] for p in progs]
    for k in ks:
        w.probe("kind:" + k)
    if len(set(ks)) < n:
        w.probe("same-kind")
    if ks.count("read") > 1:
        w.probe("shared-file")
    if n > 1:
        w.probe("threads")
    fs.set_phase("run")
    logs = [[] for _ in progs]
    res = w.sched.run([lambda i=i, p=p: run(i, p, logs[i]) for i, p in enumerate(progs)], scn["preempt"], scn["lines"])
    hit = {c for c in w.fired_by if hit_by(w, c)}
    if hit:
        w.probe("fault")
    for i, (st, v) in enumerate(res):
        if i in hit:
            continue
        if st == "exc":
            raise v
        if hit:
            w.probe("unhit-compared")
        a, b = want[i][0], logs[i]
        w.ev("result", i, len(b))
        for x, y in zip(a, b):
            expect(x == y, "result-changed:" + ks[i], lambda: "program %d (%s) alone: %s\ntogether: %s" % (i, ks[i], x[:700], y[:700]))
        expect(len(a) == len(b), "result-changed:" + ks[i], lambda: "program %d (%s): %d results alone, %d together" % (i, ks[i], len(a), len(b)))
        fa, fb = dict(want[i][1]), dict(files(fs, i))
        expect(fa.keys() == fb.keys(), "files-changed:" + ks[i], lambda: "alone %s, together %s" % (sorted(fa), sorted(fb)))
        for p in fa:
            expect(fa[p] == fb[p], "files-changed:" + ks[i], lambda: "%s: %r alone, %r together" % (p, fa[p][:300], fb[p][:300]))
