"""Vector canvas: the saved document paints exactly what was requested."""
from .. import gens, ps
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS

ID = "C10"
BUDGET = {"quick": (4500, 75), "thorough": (40000, 420)}
RULE = ("Seeded histories over several canvases: shapes, texts, images, ink/width/dash changes, copies, box resets, items whose point source or ink fails half-way, lists changed "
        "after the call, point sources that draw on another canvas, saves with and without size and margin; saves also with open/write/close errors, full disks and short "
        "writes, repeated until one succeeds.  Every saved document is run by a PostScript interpreter and its painting compared with a model.")
REAL = ["coral.vector.Canvas", "coral/defs.ps", "coral.bbox", "Python io buffering"]
STUB = ["disk (dst.fs)", "PostScript interpreter with fixed font metrics (dst.ps)"]
ASSUME = ["coordinates are finite numbers, inks are numbers or 3-tuples in 0..1, texts are printable ASCII", "a size is only given for canvases with an extent",
          "no item consists of the single point (0, 0)"]
PROBES = ["fill+stroke", "text", "escaped", "image", "copy", "failed-item", "save-error", "flat", "bg", "gray-color", "nested", "dash", "rounded-many", "kept"]
NOSHRINK = ("anchor", "mode", "k")
ANCHORS = "c t tr r br b bl l tl".split()


def gen_ink(rng):
    if rng.random() < 0.12:
        # hardly different from another one
        return rng.choice([0.5, 0.501, 0.5004, 0.50000001, 0.001, 0.9995, [0.5, 0.5, 0.501], [0.5, 0.50004, 0.5], [0.0005, 0, 0], [1, 0.001, 0], [1, 0, 0.00002]])
    return rng.choice([0, 1, 0.5, 0.25, [0, 0, 0], [1, 0, 0], [0, 0.5, 1], [0.5, 0.5, 0.5], [1, 1, 1], [0.25, 0.25, 0.25]])


def gen_pt(rng):
    return [rng.choice([rng.randint(-50, 50), round(rng.uniform(-200, 200), 3), rng.uniform(-1, 1), 1e-7, 12345.678]) for _ in range(2)]


def gen_item(rng, c):
    k = rng.random()
    opt = lambda: gen_ink(rng) if rng.random() < 0.6 else None
    mode = rng.choice(["list", "list", "tuple", "gen", "gen", "nested"])
    if k < 0.14:
        return ["circle", c, gen_pt(rng), rng.choice([1, 2.5, 10]), opt(), opt()]
    if k < 0.4:
        n = rng.choice([1, 2, 2, 3, 5, 0])
        pts = [gen_pt(rng) for _ in range(n)]
        if rng.random() < 0.25:
            pts = [[p[0], pts[0][1]] for p in pts]
        return ["pline", c, pts, opt(), mode]
    if k < 0.62:
        return ["poly", c, [gen_pt(rng) for _ in range(rng.choice([1, 3, 3, 4, 6, 0]))], opt(), opt(), mode]
    if k < 0.7:
        n = 140 if rng.random() < 0.04 else rng.choice([3, 4, 5])
        return ["round", c, [gen_pt(rng) for _ in range(n)], rng.choice([0.5, 2]), opt(), opt()]
    if k < 0.88:
        text = "".join(rng.choice("abc XYZ-%/<>[]{}#09().\\") for _ in range(rng.choice([0, 1, 5, 12])))
        return ["text", c, gen_pt(rng), text, rng.choice([1, 8, 10.5]), rng.choice(["Times-Bold", "Helvetica", None]), rng.choice(ANCHORS)]
    w, h, color = rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.random() < 0.5
    if rng.random() < 0.04:
        w, h = rng.choice([(1, 256), (256, 1), (2, 300), (300, 2), (40, 33), (33, 70)])
    return ["image", c, [rng.randrange(256) for _ in range(w * h * (3 if color else 1))], w, rng.choice([None, gen_pt(rng)]), rng.choice([1, 2, 0.5]), color]


def generate(rng, tier):
    cans = [rng.choice([None, None, gen_ink(rng)]) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = len(cans)
    ops = []
    for _ in range(rng.choice([3, 6, 12, 25])):
        c = rng.randrange(n)
        k = rng.random()
        if k < 0.6:
            ops.append(gen_item(rng, c))
        elif k < 0.68:
            ops.append(["ink", c, gen_ink(rng)])
        elif k < 0.74:
            ops.append(["width", c, rng.choice([0.5, 1, 1, 2, 3.25, 0, rng.choice([1.0004, 0.5001, 0.49996, 2.00000003, 0.0004])])])
        elif k < 0.8:
            ops.append(["dash", c, rng.choice([[], [3], [3, 1], [1.5, 2, 3], rng.choice([[3.0004], [3, 1.001], [0.0002], [1.5, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]])]), rng.choice([0, 0, 1, 0.0003]), rng.choice(["list", "same", "same", "tuple"])])
        elif k < 0.84 and n < 5:
            ops.append(["copy", c, rng.random() < 0.5])
            n += 1
        elif k < 0.87:
            ops.append(["reset", c])
        elif k < 0.93:
            it = gen_item(rng, c)
            ops.append(["fail", rng.choice(["source", "ink", "item"]), rng.randrange(4), it])
        else:
            ops.append(["save", c, rng.choice([None, None, 100, 512.5]), rng.choice([0, 0, 5, 2.5]), "d%d.ps" % rng.randrange(2)])
    for c in range(n):
        ops.append(["save", c, rng.choice([None, 200]), rng.choice([0, 5]), "last%d.eps" % c])
    return {"bufsize": gens.bufsize(rng), "canvases": cans, "ops": ops, "faults": [], "capacity": None}


def variants(rng, scn, res, tier):
    for _ in range(2 if tier == "quick" else 4):
        s = dict(scn)
        if rng.random() < 0.8:
            s["faults"] = gens.faults(rng, res, ("save",), ("write", "open", "close"), persist=0)
        else:
            s["capacity"] = rng.randint(0, 2000)
        if rng.random() < 0.4:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def ink_arg(v):
    return tuple(v) if isinstance(v, list) else v


def rgb(v):
    return tuple(float(x) for x in v) if isinstance(v, (list, tuple)) else (float(v),) * 3


class Model:
    def __init__(self, bg):
        self.bg = bg
        self.items, self.box = [], None
        self.ink, self.width, self.dash = rgb(0 if bg is None else bg), 1, ([], 0)

    def copy(self):
        m = Model(self.bg)
        m.items, m.box, m.ink, m.width, m.dash = list(self.items), self.box, self.ink, self.width, self.dash
        return m

    def extend(self, pts):
        b = self.box
        x0, y0, x1, y1 = min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)
        if b is None:
            self.box = (x0, y0, x1, y1)
        else:
            self.box = (min(b[0], x0), min(b[1], y0), max(b[2], x1), max(b[3], y1))

    def area(self, path, fill, stroke):
        if fill is not None:
            self.ink = rgb(fill)
            self.items.append({"k": "fill", "path": path, "rgb": self.ink})
        if stroke is not None:
            self.stroke(path, stroke)

    def stroke(self, path, ink):
        if ink is not None:
            self.ink = rgb(ink)
        self.items.append({"k": "stroke", "path": path, "rgb": self.ink, "width": self.width, "dash": self.dash})


def apply_item(w, it, cv, m, mode_override=None, fail=None, nested=None):
    """Draws the item on the canvas and in the model.  fail: ("source", n) or ("item", n) point source fails or ends in junk after n points,
    ("ink",) an unusable fill."""
    k = it[0]
    if k in ("circle", "round", "poly"):
        fi, si = (4, 5) if k != "poly" else (3, 4)
        fill, stroke = it[fi], it[si]
    bad = object() if fail and fail[0] == "ink" else None

    def points(pts, mode):
        tup = [tuple(p) for p in pts]
        if fail and fail[0] in ("source", "item"):
            def g():
                for i, p in enumerate(tup):
                    if i == min(fail[1], len(tup) - 1):
                        break
                    yield p
                if fail[0] == "source":
                    raise OSError(5, "source failed")
                yield ("x",)
            return g()
        if mode == "list":
            return tup
        if mode == "tuple":
            return tuple(tup)

        def g():
            for p in tup:
                if mode == "nested" and nested is not None:
                    nested()
                yield p
        return g()

    def call(fn, *a):
        if fail:
            st, v = w.call(fn, *a)
            expect(st == "exc", "failure-hidden", "%s did not raise" % k)
            w.probe("failed-item")
            return False
        w.must(k, fn, *a)
        return True

    if k == "circle":
        if bad is not None:
            return call(cv.addcircle, tuple(it[2]), it[3], bad, ink_arg(stroke))
        if fail:
            return
        call(cv.addcircle, tuple(it[2]), it[3], ink_arg(fill), ink_arg(stroke))
        x, y, r = it[2][0], it[2][1], it[3]
        m.area([("m", (x + r, y)), ("a", (x, y), r, 0, 360, 1), ("c",)], fill, stroke)
        m.extend([(x - r, y - r), (x + r, y + r)])
        if fill is not None and stroke is not None:
            w.probe("fill+stroke")
    elif k == "pline":
        if not it[2] and fail:
            return
        if bad is not None:
            # the path is already there when the ink is refused, but nothing is stroked
            return call(cv.addpolyline, points(it[2], it[4]), bad)
        p = points(it[2], it[4])
        if not call(cv.addpolyline, p, ink_arg(it[3])):
            return
        if isinstance(p, list):
            p[:] = [(1e6, 1e6)]
        if not it[2]:
            return
        m.stroke([("m", tuple(it[2][0]))] + [("l", tuple(q)) for q in it[2][1:]], it[3])
        m.extend(it[2])
        if len({q[1] for q in it[2]}) == 1:
            w.probe("flat")
    elif k == "poly":
        if not it[2] and fail:
            return
        if bad is not None:
            return call(cv.addpolygon, points(it[2], it[5]), bad, ink_arg(stroke))
        p = points(it[2], it[5])
        if not call(cv.addpolygon, p, ink_arg(fill), ink_arg(stroke)):
            return
        if isinstance(p, list):
            p[:] = [(1e6, 1e6)]
        if not it[2]:
            return
        m.area([("m", tuple(it[2][0]))] + [("l", tuple(q)) for q in it[2][1:]] + [("c",)], fill, stroke)
        m.extend(it[2])
        if fill is not None and stroke is not None:
            w.probe("fill+stroke")
    elif k == "round":
        pts = [tuple(p) for p in it[2]]
        if len(pts) < 3:
            raise Invalid("round")
        if fail:
            return
        if len(pts) > 100:
            w.probe("rounded-many")
        arg = list(pts)
        call(cv.addroundedpolygon, arg, it[3], ink_arg(fill), ink_arg(stroke))
        expect(arg == pts, "argument-changed", "addroundedpolygon")
        arg[:] = [(1e6, 1e6)]
        st = ((pts[0][0] + pts[1][0]) / 2, (pts[0][1] + pts[1][1]) / 2)
        ring = pts[1:] + pts[:1]
        m.area([("m", st)] + [("t", a, b, it[3]) for a, b in zip(ring, ring[1:] + [st])] + [("c",)], fill, stroke)
        m.extend(pts)
    elif k == "text":
        if fail:
            return
        a = [tuple(it[2]), int(it[3]) if it[3].isdigit() and str(int(it[3])) == it[3] else it[3], it[4]]
        if any(not " " <= ch <= "~" for ch in it[3]) or it[6] not in ANCHORS:
            raise Invalid("text")
        if it[5] is None:
            w.must("text", lambda: cv.addtext(*a, anchor=it[6]))
        else:
            w.must("text", cv.addtext, *a, it[5], it[6])
        dx = len(it[3]) * it[4] * ps.ADVANCE
        dy = it[4] * ps.HEIGHT if it[3] else 0
        ox = {"c": -dx / 2, "t": -dx / 2, "b": -dx / 2, "tr": -dx, "r": -dx, "br": -dx}.get(it[6], 0)
        oy = {"c": -dy / 2, "l": -dy / 2, "r": -dy / 2, "t": -dy, "tl": -dy, "tr": -dy}.get(it[6], 0)
        m.items.append({"k": "text", "text": it[3], "font": it[5] or "Times-Bold", "size": it[4], "at": (it[2][0] + ox, it[2][1] + oy), "rgb": m.ink})
        w.probe("text")
        if any(ch in "()\\" for ch in it[3]):
            w.probe("escaped")
    elif k == "image":
        if fail:
            return
        n = 3 if it[6] else 1
        if not it[3] or not it[2] or len(it[2]) % (it[3] * n) or any(not 0 <= v <= 255 for v in it[2]):
            raise Invalid("image")
        data = list(it[2])
        a = [None if it[4] is None else tuple(it[4]), it[5], it[6]]
        while a and a[-1] == (None, 1, False)[len(a) - 1]:
            a.pop()
        w.must("image", cv.addimage, data, it[3], *a)
        expect(data == it[2], "argument-changed", "addimage")
        data[:] = [0]
        h = len(it[2]) // (it[3] * n)
        x, y = it[4] or (0, 0)
        sw, sh = it[3] * it[5], h * it[5]
        m.items.append({"k": "image", "w": it[3], "h": h, "n": n, "data": bytes(it[2]), "corners": [(x, y + sh), (x + sw, y + sh), (x, y)]})
        m.extend([(x, y), (x + sw, y + sh)])
        w.probe("image")
    else:
        raise Invalid("item")
    return True


def close(a, b, tol):
    return abs(a - b) <= tol


def same_path(a, b, tol):
    """Document path a, expected path b."""
    if len(a) != len(b) or any(s[0] != t[0] for s, t in zip(a, b)):
        return "path %s instead of %s" % (" ".join(s[0] for s in a), " ".join(s[0] for s in b))
    for s, t in zip(a, b):
        for u, v in zip(s[1:], t[1:]):
            u, v = (u, v) if isinstance(u, tuple) else ((u,), (v,))
            if any(not close(x, y, tol) for x, y in zip(u, v)):
                return "%s %r instead of %r" % (s[0], s[1:], t[1:])
    return None


def judge_doc(w, data, m, size, margin, cls="wrong-document"):
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        raise Violation(cls, "not text")
    expect(text.startswith("%!PS-Adobe"), cls, "no PostScript header: %r" % text[:40])
    try:
        it = ps.interpret(text)
    except ps.PSError as e:
        raise Violation(cls, "PostScript error: %s" % e)
    except ps.Unsupported:
        w.probe("inconclusive")
        return text
    got = it.painted
    box = m.box or (0, 0, 0, 0)
    if size is None:
        page = (box[0] - margin, box[1] - margin, box[2] + margin, box[3] + margin)
        k, cx, cy, ox, oy = 1, 0, 0, 0, 0
    else:
        page = (0, 0, size, size)
        k = (size - margin) / max(box[2] - box[0], box[3] - box[1])
        cx, cy, ox, oy = (box[0] + box[2]) / 2, (box[1] + box[3]) / 2, size / 2, size / 2
    big = max([1] + [abs(v) for v in box])
    tol = 1e-9 * k * big + 1e-9 * max(1, *map(abs, page))
    T = lambda p: ((p[0] - cx) * k + ox, (p[1] - cy) * k + oy)
    bbs = [c for c in it.tokens.comments if c.startswith("%%BoundingBox:")]
    expect(len(bbs) == 1, cls, "%d bounding boxes" % len(bbs))
    try:
        bb = [float(x) for x in bbs[0].split(":")[1].split()]
    except ValueError:
        raise Violation(cls, bbs[0])
    expect(len(bb) == 4 and all(close(a, b, tol) for a, b in zip(bb, page)), cls, "%s, extent is %r" % (bbs[0], page))
    want = []
    if m.bg is not None:
        w.probe("bg")
        a, b, c, d = page
        want.append({"k": "fill", "rgb": rgb(m.bg), "path": [("m", (a, b)), ("l", (c, b)), ("l", (c, d)), ("l", (a, d)), ("c",)], "raw": True})
    want += m.items
    for i, (g, x) in enumerate(zip(got, want)):
        where = "item %d (%s)" % (i, x["k"])
        f = (lambda p: p) if x.get("raw") else T
        expect(g["k"] == x["k"], cls, "%s: %s painted instead" % (where, g["k"]))
        if "rgb" in x:
            expect(all(close(a, b, 1e-9) for a, b in zip(g["rgb"], x["rgb"])), cls, "%s: ink %r instead of %r" % (where, g["rgb"], x["rgb"]))
        if "path" in x:
            path = []
            for s in x["path"]:
                if s[0] == "a":
                    path.append(("a", f(s[1]), s[2] * k) + s[3:])
                elif s[0] == "t":
                    path.append(("t", f(s[1]), f(s[2]), s[3] * k))
                else:
                    path.append(s[:1] + tuple(f(p) for p in s[1:]))
            why = same_path(g["path"], path, tol)
            expect(why is None, cls, "%s: %s" % (where, why))
        if x["k"] == "stroke":
            expect(close(g["width"], x["width"] * k, tol), cls, "%s: width %r instead of %r" % (where, g["width"], x["width"] * k))
            d = tuple(v * k for v in x["dash"][0])
            expect(len(d) == len(g["dash"][0]) and all(close(a, b, tol) for a, b in zip(g["dash"][0], d)) and close(g["dash"][1], x["dash"][1] * k, tol),
                   cls, "%s: dash %r instead of %r" % (where, g["dash"], x["dash"]))
            if d:
                w.probe("dash")
        if x["k"] == "text":
            expect(g["text"] == x["text"], cls, "%s: %r instead of %r" % (where, g["text"], x["text"]))
            expect(g["font"] == x["font"] and close(g["size"], x["size"] * k, tol), cls, "%s: font %s %r" % (where, g["font"], g["size"]))
            expect(all(close(a, b, tol + 1e-9 * k * x["size"] * 20) for a, b in zip(g["at"], T(x["at"]))), cls, "%s: at %r instead of %r" % (where, g["at"], T(x["at"])))
        if x["k"] == "image":
            expect((g["w"], g["h"], g["n"], g["data"]) == (x["w"], x["h"], x["n"], x["data"]), cls, "%s: %dx%d %r instead of %r" %
                   (where, g["w"], g["h"], g["data"], x["data"]))
            expect(all(close(a, b, tol) for p, q in zip(g["corners"], x["corners"]) for a, b in zip(p, T(q))), cls,
                   "%s: corners %r instead of %r" % (where, g["corners"], [T(q) for q in x["corners"]]))
    expect(len(got) == len(want), cls, "%d items painted instead of %d; first other one: %s" %
           (len(got), len(want), (got[len(want):] or [want[len(got)]] if len(got) != len(want) else [None])[0]))
    return text


def has_extent(m):
    return m.box is not None and max(m.box[2] - m.box[0], m.box[3] - m.box[1]) > 1e-5


def origin_only(it):
    pts = it[2] if it[0] in ("pline", "poly", "round") else []
    return bool(pts) and all(p == [0, 0] for p in map(list, pts))


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    V = C["vector"]
    cvs = [w.must("canvas", V.Canvas, *([] if bg is None else [ink_arg(bg)])) for bg in scn["canvases"]]
    ms = [Model(bg) for bg in scn["canvases"]]
    kinds = [set() for _ in ms]
    dashlist = []
    kept = {}       # documents of canvases not drawn on since

    def doc(i):
        """What a canvas saves now, on a disk without faults."""
        cap, fs.capacity = fs.capacity, None
        w.must("save", cvs[i].save, "kept.eps")
        fs.capacity = cap
        return fs.peek("kept.eps")

    for op in scn["ops"] + [["same", i] for i in range(len(scn["canvases"]))]:
        k = op[0]
        c = op[3][1] if k == "fail" else op[1]
        if c >= len(cvs):
            continue
        cv, m = cvs[c], ms[c]
        if k == "same":
            if c in kept:
                now = doc(c)
                w.probe("kept")
                expect(now == kept[c], "canvas-changed", lambda: "canvas %d was not drawn on, but now saves %r instead of %r" % (c, now, kept[c]))
            continue
        if k not in ("copy", "save"):
            kept.pop(c, None)
        if k == "ink":
            w.must("setink", cv.setink, ink_arg(op[2]))
            m.ink = rgb(op[2])
            kinds[c].add(type(op[2]) is list)
            if len(kinds[c]) == 2:
                w.probe("gray-color")
        elif k == "width":
            w.must("setwidth", cv.setwidth, op[2])
            m.width = op[2]
        elif k == "dash":
            if op[2] and not any(op[2]):
                raise Invalid("dash")
            if op[4] == "same":
                arg = dashlist
                arg[:] = op[2]
            else:
                arg = list(op[2])
            w.must("setdash", cv.setdash, tuple(arg) if op[4] == "tuple" else arg, *([op[3]] if op[3] else []))
            if op[4] == "list":
                arg.append(99)
            m.dash = (list(op[2]), op[3])
        elif k == "copy":
            if len(op) > 2 and op[2]:
                kept[c] = doc(c)
            cvs.append(w.must("copy", cv.copy))
            ms.append(m.copy())
            kinds.append(set(kinds[c]))
            w.probe("copy")
        elif k == "reset":
            w.must("resetbbox", cv.resetbbox)
            m.box = None
        elif k == "fail":
            if origin_only(op[3]):
                raise Invalid("origin")
            if op[1] != "ink" and op[3][0] in ("poly", "pline") and not op[3][2]:
                continue
            apply_item(w, op[3], cv, m, fail=(op[1], op[2]))
        elif k == "save":
            size, margin, path = op[2], op[3], op[4]
            if size is not None and (not has_extent(m) or size <= margin):
                size = None
            fs.set_phase("save")
            if scn["capacity"] is not None:
                fs.capacity = fs.used() + scn["capacity"]
            for attempt in range(12):
                before = sum(w.fired.values())
                st, v = w.call(lambda: cv.save(path, margin=margin) if size is None else cv.save(path, size, margin))
                if st == "ok":
                    break
                if sum(w.fired.values()) == before:
                    raise Violation("save-failed", repr(v))
                w.probe("save-error")
                fs.capacity = None
            else:
                raise Violation("save-failed", "still failing after the fault is gone")
            fs.set_phase("-")
            judge_doc(w, fs.peek(path), m, size, margin)
        else:
            if origin_only(op):
                raise Invalid("origin")
            other = (c + 1) % len(cvs)

            def nested():
                if other != c:
                    w.probe("nested")
                    kept.pop(other, None)
                    it = ["circle", other, [3, 4], 2, [0, 0.5, 1], 0.25]
                    apply_item(w, it, cvs[other], ms[other])
            apply_item(w, op, cv, m, nested=nested)
