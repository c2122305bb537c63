"""Map pipeline: lazily streamed drawing equals step-by-step drawing."""
import math

from .. import gens
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import c10, c12, c18

ID = "C20"
BUDGET = {"quick": (2500, 75), "thorough": (25000, 450)}
RULE = ("Seeded shapefiles (polygons and polylines with several parts and attributes) drawn as in the README: read by list, by paired iterators or by index, filtered by attribute and part size, projected, "
        "simplified, added to a canvas under a progress bar, saved; parts drawn at once or later in any order, from points already read or read when drawn, two maps from one reader; any clock and buffer size; open/read/seek errors anywhere in "
        "reading and write errors in saving, then the failed step again.  The document is interpreted and compared with one computed stage by stage from the data.")
REAL = ["coral.shapefile", "coral.tqdm", "coral.proj", "coral.coord", "coral.vector", "coral.bbox", "Python io buffering"]
STUB = ["disk (dst.fs)", "clock", "terminal", "PostScript interpreter (dst.ps)"]
ASSUME = ["points lie in the projection's domain; the projected coordinates themselves are taken from the projection code (property C14 and N01 concern them)"]
PROBES = ["read-error", "save-error", "retry", "filtered", "outside", "deferred", "two-maps", "iter", "index", "pairs", "small-part", "color", "reread"]
NOSHRINK = ("proj", "style", "t", "kind")
REGIONS = ["Africa", "Europe", "Asia", "Am\u00e9rica"]
PROJS = ["TransMercator", "Mercator", "EMercator", "ConicEqualArea", "EckertIV", "Stereographic", "AzimuthalEqualArea"]


def gen_part(rng):
    lon, lat = rng.uniform(-20, 45), rng.uniform(5, 60)
    d = rng.choice([0.02, 0.3, 2, 8])
    n = rng.choice([3, 4, 6, 12, 25])
    pts = []
    for i in range(n):
        if pts and rng.random() < 0.15:
            pts.append(list(rng.choice(pts)))
        else:
            pts.append([round(lon + d * math.cos(6.28 * i / n) + rng.uniform(-d, d) / 4, 4), round(lat + d * math.sin(6.28 * i / n) + rng.uniform(-d, d) / 4, 4)])
    return pts


def generate(rng, tier):
    shapes = [{"parts": [gen_part(rng) for _ in range(rng.choice([1, 1, 2, 3]))], "rec": [rng.choice(["", "x", "S\u00e3o"]), rng.choice(REGIONS), rng.randrange(1000)]} for _ in range(rng.choice([1, 2, 4, 7]))]
    maps = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        maps.append({"proj": rng.choice(PROJS), "pixsz": rng.choice([1000, 5000, 5000, 50000]), "region": rng.choice([None] + REGIONS), "min": rng.choice([0, 0, 5]), "bg": rng.choice([None, [0.5, 0.8, 0.9]]),
                     "fill": rng.choice([None, 0.5, [0.4, 0.9, 0.2]]), "stroke": rng.choice([0, [1, 1, 1]]), "window": rng.choice([None, [-25, 41, 35, 72]]), "size": rng.choice([None, None, 500]), "k": rng.choice([None, None, 2])})
    return {"bufsize": gens.bufsize(rng), "t": rng.choice([5, 5, 3, 15]), "shapes": shapes, "maps": maps, "style": rng.choice(["pairs", "pairs", "iter", "iter", "index"]), "defer": rng.random() < 0.3, "reread": rng.random() < 0.3, "dorder": [rng.randrange(9) for _ in range(9)],
            "noshx": rng.random() < 0.2, "stderr": rng.random() < 0.3, "dt": [rng.choice([0, 1, 30, 64, 1000]) for _ in range(3)], "jump": rng.choice([0, 0, -100, 10000]), "faults": []}


def variants(rng, scn, res, tier):
    for _ in range(4 if tier == "quick" else 8):
        s = dict(scn)
        if rng.random() < 0.8:
            s["faults"] = gens.faults(rng, res, ("map", "save"), persist=0)
        if rng.random() < 0.4:
            s["bufsize"] = gens.bufsize(rng)
        if rng.random() < 0.3:
            s["style"] = rng.choice(["pairs", "iter", "index"])
            s["defer"] = rng.random() < 0.5
            s["jump"] = rng.choice([0, -100, 10000])
        yield s


def projection(name):
    P = C["proj"]
    if name == "ConicEqualArea":
        return P.ConicEqualArea((20, 50))
    if name in ("Stereographic", "AzimuthalEqualArea"):
        return getattr(P, name)((10, 35))
    if name not in PROJS:
        raise Invalid("projection")
    return getattr(P, name)()


def ref_simplify(pts, m, k, w):
    n = lambda v: int(v / m + math.copysign(0.5, v / m))
    return [v for v, _ in c18.reference([(n(x), n(y)) for x, y in pts], 1, k, w)]


class NoProbe:
    def probe(self, *a):
        pass


def execute(scn, w):
    fs = SimFS(w, [], scn["bufsize"] or 1)
    sf, co, V, tq = C["shapefile"], C["coord"], C["vector"], C["tqdm"]
    t = scn["t"]
    if t not in (3, 5, 15) or not scn["maps"]:
        raise Invalid("scenario")
    wr = sf.Writer(t, encoding="latin1")
    wr.field("NAME", "C", 20)
    wr.field("REGION", "C", 12)
    wr.field("POP", "N", 8)
    data = []
    for s in scn["shapes"]:
        if not s["parts"] or any(len(p) < 3 for p in s["parts"]) or s["rec"][1] not in REGIONS:
            raise Invalid("shape")
        if any(len(p) != 2 or not -60 <= p[0] <= 80 or not -20 <= p[1] <= 80 for q in s["parts"] for p in q):
            raise Invalid("point")
        parts = []
        for p in s["parts"]:
            q = [tuple(x) for x in p]
            if t != 3 and q[0] != q[-1]:
                q.append(q[0])
            parts.append(q)
        data.append((parts, s["rec"]))
        w.must("poly", wr.poly, [[list(x) for x in p] for p in s["parts"]], t)
        w.must("record", wr.record, *s["rec"])
    fs.set_phase("setup")
    w.must("save", wr.save, "world")
    if scn["noshx"]:
        # without the index, positions are found by walking the file
        objs = True
    else:
        objs = False
    source = {p: bytes(n.data) for p, n in fs.files.items()}

    # ---- what stage-by-stage evaluation gives
    models = []
    for m in scn["maps"]:
        prj = projection(m["proj"])
        M = c10.Model(m["bg"])
        items = []
        for parts, rec in data:
            if m["region"] is not None and rec[1] != m["region"]:
                w.probe("filtered")
                continue
            for part in parts:
                if len(part) < m["min"]:
                    w.probe("small-part")
                    continue
                xy = [prj.geo2rect(lon, lat) for lon, lat in part]
                items.append((part, ref_simplify(xy, m["pixsz"], m["k"] or 8, NoProbe())))
        models.append((M, items))

    def order(n):
        idx = list(range(n))
        if scn["defer"]:
            for i, x in enumerate(scn["dorder"]):
                if n:
                    a, b = i % n, x % n
                    idx[a], idx[b] = idx[b], idx[a]
        return idx

    def model_draw(M, m, items):
        for i in order(len(items)):
            part, pts = items[i]
            saved = M.box
            path = [("m", pts[0])] + [("l", q) for q in pts[1:]] + [("c",)]
            M.area(path, m["fill"], m["stroke"])
            if any(q != (0, 0) for q in pts):
                M.extend(pts)
            if m["window"] and outside(m["window"], part[0]):
                w.probe("outside")
                M.box = saved
        return M

    def outside(win, p):
        return not win[0] < p[0] < win[1] or not win[2] < p[1] < win[3]

    term = c12.Term()
    ticks = [0]

    def tick():
        ticks[0] += 1
        dt = scn["dt"]
        if dt:
            w.clock.advance(dt[ticks[0] % len(dt)] / 64)
        if ticks[0] == 3 and scn["jump"]:
            w.clock.jump(scn["jump"])

    def pairs(rd):
        """(shape, record) as the chosen style delivers them."""
        kw = {} if scn["stderr"] else {"file": term}
        if scn["style"] == "pairs":
            w.probe("pairs")
            for sr in tq.tqdm(rd.shapeRecords(), **kw):
                yield sr.shape, sr.record
        elif scn["style"] == "iter":
            w.probe("iter")
            yield from tq.tqdm(zip(rd.iterShapes(), rd.iterRecords()), total=len(data), **kw)
        else:
            w.probe("index")
            for i in tq.trange(len(data), **kw):
                yield rd.shape(i), rd.record(i)

    def lazily(r, i, a, b):
        w.probe("reread")
        yield from r.shape(i).points[a:b]

    def draw(rd, cvs, prjs):
        later = [[] for _ in cvs]
        for n, (shape, rec) in enumerate(pairs(rd)):
            tick()
            for j, (m, cv, prj) in enumerate(zip(scn["maps"], cvs, prjs)):
                if m["region"] is not None and rec[1] != m["region"]:
                    continue
                points = shape.points
                offsets = list(shape.parts) + [len(points)]
                for a, b in zip(offsets[:-1], offsets[1:]):
                    if b - a < m["min"]:
                        continue

                    def one(a=a, b=b, points=points, prj=prj, m=m, cv=cv, i=n):
                        if scn.get("reread"):
                            # the shape is read only when its outline is drawn
                            polygon = (prj.geo2rect(lon, lat) for r in (rd,) for lon, lat in lazily(r, i, a, b))
                        else:
                            polygon = (prj.geo2rect(lon, lat) for lon, lat in points[a:b])
                        kw = {} if m["k"] is None else {"k": m["k"]}
                        polygon = co.simplify(polygon, m["pixsz"], **kw)

                        def add():
                            out = m["window"] and outside(m["window"], points[a])
                            if out:
                                bb = cv.bbox
                            kw = {} if m["fill"] is None else {"fill": c10.ink_arg(m["fill"])}
                            cv.addpolygon(polygon, stroke=c10.ink_arg(m["stroke"]), **kw)
                            if out:
                                cv.bbox = bb
                        return add
                    add = one()
                    if scn["defer"]:
                        later[j].append(add)
                    else:
                        add()
        for fns in later:
            for i in order(len(fns)):
                fns[i]()

    if scn["defer"]:
        w.probe("deferred")
    if len(scn["maps"]) > 1:
        w.probe("two-maps")
    fs.faults = [dict(f) for f in scn["faults"]]
    fs.set_phase("map")

    def attempt(what, fn):
        before = gens.errors_fired(w)
        st, v = w.call(fn)
        if st == "exc":
            if gens.errors_fired(w) == before:
                raise Violation("unexpected-error:" + what, "%s: %s" % (type(v).__name__, v))
            w.probe("read-error" if what != "save" else "save-error")
            return None, False
        return v, True

    def opened():
        if objs:
            return sf.Reader(shp=open("world.shp", "rb"), dbf=open("world.dbf", "rb"), encoding="latin1")
        return sf.Reader("world", encoding="latin1")
    rd, cvs, prjs = None, None, None
    for n in range(14):
        if rd is None:
            rd, ok = attempt("open", opened)
            if not ok:
                continue
        cvs = [V.Canvas(*([] if m["bg"] is None else [c10.ink_arg(m["bg"])])) for m in scn["maps"]]
        prjs = [projection(m["proj"]) for m in scn["maps"]]
        before = gens.errors_fired(w)
        _, ok = attempt("draw", lambda: draw(rd, cvs, prjs))
        if ok:
            expect(gens.errors_fired(w) == before, "error-swallowed", "reading failed but the map was drawn")
            break
        w.probe("retry")
    else:
        raise Violation("still-failing", "after the fault is gone")
    for j, (m, cv) in enumerate(zip(scn["maps"], cvs)):
        M = model_draw(models[j][0], m, models[j][1])
        if m["fill"] is not None:
            w.probe("color")
        size = m["size"] if c10.has_extent(M) else None
        fs.set_phase("save")
        for n in range(14):
            _, ok = attempt("save", lambda: cv.save("map%d.eps" % j) if size is None else cv.save("map%d.eps" % j, size))
            if ok:
                break
        else:
            raise Violation("still-failing", "after the fault is gone")
        fs.set_phase("judge")
        text = c10.judge_doc(w, fs.peek("map%d.eps" % j), M, size, 0)
        w.ev("document", len(text), len(M.items))
    for p, d in source.items():
        expect(fs.peek(p) == d, "source-changed", p)
