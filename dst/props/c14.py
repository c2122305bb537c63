"""Map frames: saved frames and name caches load back equivalent."""
import math

from .. import gens
from ..core import Invalid, ProcessKilled, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import pfcommon as pc

ID = "C14"
BUDGET = {"quick": (3750, 75), "thorough": (40000, 420)}
RULE = ("Seeded frames (every projection with a centre, default, custom and polar centres, earth models, boxes) saved, saved over each other, loaded, saved again from the loaded one and loaded; "
        "name caches of seeded P files per frame; with open/read/write/close/seek errors, full disks, short transfers, a crash at a sampled system call and cuts at sampled lengths.")
REAL = ["coral.frame", "coral.proj", "coral.bbox", "coral.pf", "coral.tqdm", "json", "Python io buffering"]
STUB = ["disk (dst.fs); crash = process death, kernel-accepted writes survive, user buffers are lost", "clock"]
ASSUME = ["names are free of line breaks; entities of one name are equal", "points lie inside the projection's domain, at least a degree from its singular points and cut",
          "polygons whose projected box touches the frame's border within a micrometre may count either way"]
PROBES = ["save-error", "load-error", "crash", "cut", "old", "ellipsoid", "second-generation", "centre-point", "names", "names-error", "inside", "outside", "trailing-blank", "twice"]
NOSHRINK = ("proj",)
SPHERE = ["Mercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea"]
KINDS = SPHERE + ["EMercator"]


def gen_frame(rng):
    c = rng.choice([None, [0, 0], [-47.93, -15.78], [rng.uniform(-180, 180), rng.uniform(-80, 80)], [rng.randint(-180, 180), rng.randint(-90, 90)], [10, rng.choice([90, -90])],
                    [rng.choice([33.3, 0.1, 123.456]), rng.choice([51.7, -0.3, 45])]])
    k = rng.choice(KINDS + ["EMercator", "AzimuthalEquidistant"])
    if k == "EMercator":
        model = rng.choice([None, "WGS84", "GRS80", [6377397.155, 6356078.963, 0.08169683, 1 / 299.1528128]])
    else:
        model = rng.choice([None, 1, 6371000, 6371008.7714])
    b = [rng.choice([0, -1e6, rng.uniform(-3e6, 3e6)]) for _ in range(2)]
    return {"proj": k, "c": c, "model": model, "box": b + [b[0] + rng.choice([1, 1e5, 2e6, 1e7]), b[1] + rng.choice([0.5, 1e5, 3e6, 1.1e7])]}


def generate(rng, tier):
    frames = [gen_frame(rng) for _ in range(rng.choice([1, 1, 2]))]
    ents = []
    for e in pc.gen_ents(rng):
        # keep away from poles and cuts
        ents.append({"name": e["name"], "polys": [[[rng.uniform(-40, 40), rng.uniform(-30, 30)] for _ in range(rng.choice([1, 3, 5]) if rng.random() < 0.9 else rng.choice([30, 70, 130, 300]))] for _ in e["polys"]]})
    if ents and rng.random() < 0.2:
        ents.insert(rng.randint(0, len(ents)), rng.choice(ents))
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        f = rng.randrange(len(frames))
        ops.append(rng.choice([["save", f, rng.choice(["a.frm", "b.frm"])], ["save", f, "a.frm"], ["names", f, rng.choice(["k", "out/k"])]]))
    ops.append(["save", 0, "a.frm"])
    return {"bufsize": gens.bufsize(rng), "frames": frames, "ents": ents, "size": rng.choice([2, 4]), "ops": ops, "pts": [[rng.uniform(-40, 40), rng.uniform(-35, 35)] for _ in range(4)],
            "cuts": [], "faults": [], "capacity": None}


def variants(rng, scn, res, tier):
    n = res["hint"] or 1
    for _ in range(4 if tier == "quick" else 8):
        s = dict(scn)
        r = rng.random()
        if r < 0.25:
            c = gens.crash(rng, res, ("save", "names"))
            s["faults"] = [c] if c else []
        elif r < 0.75:
            s["faults"] = gens.faults(rng, res, ("save", "load", "names", "loadnames"), persist=0)
        elif r < 0.85:
            s["capacity"] = rng.randint(0, n)
        else:
            s["cuts"] = sorted({0} | {rng.randrange(n + 1) for _ in range(15)})
        if rng.random() < 0.5:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def near(a, b, r):
    return all(isinstance(v, (int, float)) and abs(u - v) <= 1e-7 * r * 1e-2 + 1e-9 * abs(u) for u, v in zip(a, b))


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    fs.dirs.add("/sim/work/out")
    F, P, B = C["frame"], C["proj"], C["bbox"]
    if scn["size"] not in (1, 2, 4, 8):
        raise Invalid("size")

    def projection(f):
        k, c, m = f["proj"], f["c"], f["model"]
        if k not in KINDS or (c is not None and (len(c) != 2 or abs(c[1]) > 90 or abs(c[0]) > 180)):
            raise Invalid("frame")
        if k == "EMercator":
            if isinstance(m, list):
                if len(m) != 4 or not m[0] or not 0 <= m[2] < 0.5:
                    raise Invalid("model")
                m = P.Ellipsoid(*m)
            elif m is not None:
                m = getattr(P, m)
        elif m is not None and (not isinstance(m, (int, float)) or m < 1):
            raise Invalid("model")
        return getattr(P, k)(None if c is None else tuple(c), m)
    prjs = [projection(f) for f in scn["frames"]]
    radii = [p.a if hasattr(p, "a") else p.r for p in prjs]
    frames = [w.must("frame", F.Frame, p, B.BBox((f["box"][0], f["box"][1]), (f["box"][2], f["box"][3]))) for p, f in zip(prjs, scn["frames"])]
    if not frames:
        raise Invalid("frames")

    def points(i):
        """Points well inside the projection's domain, around its centre (in sphere coordinates only roughly)."""
        c = scn["frames"][i]["c"] or [0, 0]
        k = scn["frames"][i]["proj"]
        out = []
        for dx, dy in scn["pts"]:
            if k in ("Mercator", "EMercator", "EckertIV"):
                out.append((c[0] + dx, dy))
            elif k == "TransMercator":
                out.append((c[0] + dx, dy))
            elif k == "ObliqMercator":
                out.append((c[0] + dx * 0.5, dy * 0.5))
            else:
                out.append((c[0] + dx, max(-85, min(85, c[1] + dy))))
        if k != "ObliqMercator":
            out.append((c[0], c[1]) if k not in ("Mercator", "EMercator", "EckertIV") or abs(c[1]) < 85 else (c[0], 0))
        return out

    def same(i, fr):
        """None or how the loaded frame differs from frame i."""
        b = scn["frames"][i]["box"]
        try:
            got = [fr.bounding.x0, fr.bounding.y0, fr.bounding.x1, fr.bounding.y1]
        except AttributeError as e:
            return str(e)
        if got != b:
            return "box %r instead of %r" % (got, b)
        for p in points(i):
            st, want = w.call(prjs[i].geo2rect, *p)
            if st == "exc":
                continue       # outside the domain
            st, v = w.call(fr.projection.geo2rect, *p)
            if st == "exc":
                return "point %r: %r" % (p, v)
            if not (len(v) == 2 and near(want, v, radii[i])):
                return "point %r at %r instead of %r" % (p, v, want)
            if list(p) == list(scn["frames"][i]["c"] or [0, 0]):
                w.probe("centre-point")
        return None

    def load(path, budget=400000):
        return w.call(F.load, path, budget=budget)

    fs.set_phase("old")
    ents = scn["ents"]
    # entities of one name are the same entity written again
    pc.check_ents([e for i, e in enumerate(ents) if e not in ents[:i]])
    for e in ents:
        if any("\n" in e["name"] or "\r" in e["name"] for e in ents) or any(abs(p[0]) > 60 or abs(p[1]) > 40 for q in e["polys"] for p in q):
            raise Invalid("ents")
    wr = w.must("writer", C["pf"].Writer, "g.p", scn["size"])
    for e in ents:
        w.must("write", wr.write, e["name"], [[tuple(p) for p in q] for q in e["polys"]])
    w.must("close", wr.close)
    rd = w.must("reader", C["pf"].Reader, "g.p")
    polys = [w.must("read", rd.read, k) for k in range(len(ents))]
    stored = {}          # path -> frame index
    attempt_ok = False

    def touching(i):
        """(must, may): names inside for sure, names on the edge."""
        x0, y0, x1, y1 = scn["frames"][i]["box"]
        must, may = [], []
        for e, ps in zip(ents, polys):
            sure = edge = False
            for q in ps:
                pts = []
                for p in q:
                    st, v = w.call(prjs[i].geo2rect, *p)
                    if st == "exc":
                        return None
                    pts.append(v)
                a, c = min(p[0] for p in pts), max(p[0] for p in pts)
                b, d = min(p[1] for p in pts), max(p[1] for p in pts)
                eps = 1e-6 * max(1.0, abs(a), abs(b), abs(c), abs(d)) * 1e-3 + 1e-9
                if a < x1 - eps and c > x0 + eps and b < y1 - eps and d > y0 + eps:
                    sure = True
                elif a < x1 + eps and c > x0 - eps and b < y1 + eps and d > y0 - eps:
                    edge = True
            if sure:
                must.append(e["name"])
                w.probe("inside")
            elif edge:
                may.append(e["name"])
            else:
                w.probe("outside")
        return must, may

    cur = None
    try:
        for op in scn["ops"]:
            i = op[1]
            if i >= len(frames):
                raise Invalid("op")
            if op[0] == "save":
                path = op[2]
                if path in stored:
                    w.probe("old")
                if scn["frames"][i]["proj"] == "EMercator":
                    w.probe("ellipsoid")
                cur = op
                fs.set_phase("save")
                if scn["capacity"] is not None:
                    fs.capacity = fs.used() - len(fs.peek(path) or b"") + scn["capacity"]
                for attempt in range(12):
                    before = gens.errors_fired(w)
                    st, v = w.call(frames[i].save, path)
                    if st == "ok":
                        break
                    expect(gens.errors_fired(w) > before, "save-failed", repr(v))
                    w.probe("save-error")
                    fs.capacity = None
                    if fs.exists(path):
                        fs.set_phase("check")
                        st, v = load(path)
                        if st == "ok":
                            why = same(i, v)
                            if why and path in stored and same(stored[path], v) is None:
                                why = None
                            expect(why is None, "wrong-after-error", str(why))
                        fs.set_phase("save")
                else:
                    raise Violation("save-failed", "still failing without faults")
                fs.capacity = None
                stored[path] = i
                cur = None
                fs.set_phase("load")
                for attempt in range(12):
                    before = gens.errors_fired(w)
                    st, v = load(path)
                    if st == "ok":
                        break
                    expect(gens.errors_fired(w) > before, "load-failed", repr(v))
                    w.probe("load-error")
                else:
                    raise Violation("load-failed", "still failing without faults")
                why = same(i, v)
                expect(why is None, "wrong-frame", str(why))
                # the loaded one is a frame like any other
                fs.set_phase("check")
                fs.pending = {}
                w.must("save", v.save, "again.frm")
                v2 = w.must("load", F.load, "again.frm")
                why = same(i, v2)
                expect(why is None, "wrong-frame", "second generation: %s" % why)
                w.probe("second-generation")
            elif op[0] == "names":
                exp = touching(i)
                if exp is None:
                    continue
                cur = op
                fs.set_phase("names")
                key = op[2]
                for attempt in range(20):
                    before = gens.errors_fired(w)
                    st, n = w.call(frames[i].cachenames, key, rd)
                    if st == "ok":
                        break
                    expect(gens.errors_fired(w) > before, "names-failed", repr(n))
                    w.probe("names-error")
                else:
                    raise Violation("names-failed", "still failing without faults")
                fs.set_phase("loadnames")
                for attempt in range(20):
                    before = gens.errors_fired(w)
                    st, names = w.call(frames[i].loadnames, key)
                    if st == "ok":
                        break
                    expect(gens.errors_fired(w) > before, "names-failed", repr(names))
                    w.probe("names-error")
                else:
                    raise Violation("names-failed", "still failing without faults")
                must, may = exp
                names = list(names)
                expect(n == len(names), "wrong-names", "%r names counted, %d loaded" % (n, len(names)))
                want = [e["name"] for e in ents if e["name"] in must or (e["name"] in may and e["name"] in names)]
                expect(names == want, "wrong-names", "%r instead of %r" % (names, want))
                w.probe("names")
                if len(set(names)) < len(names):
                    w.probe("twice")
                if any(x != x.rstrip() for x in names):
                    w.probe("trailing-blank")
                cur = None
            else:
                raise Invalid("op")
    except ProcessKilled:
        w.probe("crash")
        fs.reboot()
        fs.faults = []
        fs.capacity = None
        fs.set_phase("check")
        if cur is not None and cur[0] == "save":
            path = cur[2]
            if fs.exists(path):
                st, v = load(path)
                if st == "ok":
                    why = same(cur[1], v)
                    if why and path in stored and same(stored[path], v) is None:
                        why = None
                    expect(why is None, "wrong-after-crash", str(why))
            stored.pop(path, None)
    fs.set_phase("check")
    fs.faults = []
    for path, i in sorted(stored.items()):
        st, v = load(path)
        expect(st == "ok", "load-failed", repr(v))
        why = same(i, v)
        expect(why is None, "wrong-frame", str(why))
        data = fs.peek(path)
        w.hint = len(data)
        for c in scn["cuts"]:
            if 0 <= c <= len(data):
                fs.poke(path, data[:c])
                w.probe("cut")
                st, v = load(path)
                if st == "ok":
                    why = same(i, v)
                    expect(why is None, "wrong-when-cut", "cut at %d: %s" % (c, why))
        fs.poke(path, data)
