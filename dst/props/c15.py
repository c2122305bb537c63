"""Raster canvas: independent pixels and faithful image files."""
import math

from .. import gens
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS

ID = "C15"
BUDGET = {"quick": (3750, 75), "thorough": (40000, 420)}
RULE = ("Seeded drawing histories (pixels, blends, lines, anti-aliased lines, outlines, filled polygons that meet and overlap, filled rectangles with and without holes, several of them scanned before the first is filled, refused colours, saves) over 1-3 canvases of any kind and size; saves "
        "with open/write/close errors, full disks and short writes, repeated until one succeeds; every image decoded by an independent PBM/PGM/PPM decoder.")
REAL = ["coral.raster", "array.tofile", "Python io buffering"]
STUB = ["disk (dst.fs)"]
ASSUME = ["coordinates are pixels of the canvas (borders included for filled rectangles)", "anti-aliased lines have integer ends", "outer rings run clockwise, holes counter-clockwise strictly inside", "a pixel belongs to a polygon if its upper edge's middle does (either if it is exactly on an edge)"]
PROBES = ["bw", "gray", "color", "odd-width", "bg1", "blend", "line", "aaline", "rect", "rect-right", "hole", "refused", "save-error", "diskfull", "stroke", "smooth-stroke", "poly", "polys", "later", "overwrite"]
NOSHRINK = ("t", "k")


def gen_color(rng, t):
    if t == "bw":
        return rng.choice([0, 1])
    v = lambda: rng.choice([0, 255, 128, 10, 13, 35, rng.randrange(256)])
    return v() if t == "gray" else [v(), v(), v()]


def area2(ring):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(ring, ring[1:] + ring[:1]))


def gen_ring(rng, W, H):
    """A simple polygon, seen from a point inside; clockwise (y grows downwards)."""
    for _ in range(8):
        cx, cy = rng.uniform(0, W), rng.uniform(0, H)
        pts = {(rng.choice([0, W, rng.randint(0, W)]), rng.choice([0, H, rng.randint(0, H)])) for _ in range(rng.choice([3, 3, 4, 5, 8]))}
        by = {}
        for p in sorted(pts):
            a = math.atan2(p[1] - cy, p[0] - cx)
            by.setdefault(round(a, 6), (a, p))
        ring = [list(p) for a, p in sorted(by.values())]
        if len(ring) >= 3 and area2(ring):
            return ring if area2(ring) > 0 else ring[::-1]
    return [[0, 0], [W, 0], [W, H]]


def rings(rng, W, H):
    out = [gen_ring(rng, W, H) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.1:
        # a stack of polygons, one upon the other
        out += [[list(p) for p in rng.choice(out)] for _ in range(rng.choice([1, 3, 6]))]
    return out


def generate(rng, tier):
    cans = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(["bw", "bw", "gray", "color"])
        cans.append({"t": t, "w": rng.choice([1, 3, 7, 8, 9, 15, 16, 17, 24]) if rng.random() < 0.97 else rng.choice([129, 256, 300, 1100, 1104]), "h": rng.choice([1, 2, 5, 11]) if rng.random() < 0.97 else 40, "bg": None if rng.random() < 0.3 else gen_color(rng, t)})
    for c in cans:
        if c["w"] >= 300 and rng.random() < 0.1:
            c["h"] = 70
    ops = []
    for _ in range(rng.choice([3, 8, 20])):
        c = rng.randrange(len(cans))
        t, W, H = cans[c]["t"], cans[c]["w"], cans[c]["h"]
        pt = lambda: [rng.choice([0, W - 1, rng.randrange(W)]), rng.choice([0, H - 1, rng.randrange(H)])]
        k = rng.random()
        col = gen_color(rng, t)
        if k < 0.25:
            ops.append(["set", c, pt(), col])
        elif k < 0.35 and t != "bw":
            ops.append(["blend", c, pt(), col, rng.choice([0, 1, 0.5, rng.random()])])
        elif k < 0.55:
            ops.append(["line", c, pt(), pt(), col])
        elif k < 0.65 and t != "bw":
            ops.append(["aa", c, pt(), pt(), col])
        elif k < 0.7:
            pts = [pt() for _ in range(rng.choice([2, 3, 5]))]
            if rng.random() < 0.3:
                pts.append(list(pts[0]))
            ops.append(["stroke", c, pts, col, rng.choice([None, None, False, t != "bw"])])
        elif k < 0.78:
            ops.append(["poly", c, rings(rng, W, H), col, rng.random() < 0.3])
        elif k < 0.87:
            x = sorted([rng.choice([0, W, rng.randint(0, W)]), rng.choice([0, W, rng.randint(0, W)])])
            y = sorted([rng.choice([0, H, rng.randint(0, H)]), rng.choice([0, H, rng.randint(0, H)])])
            hole = None
            if x[1] - x[0] >= 3 and y[1] - y[0] >= 3 and rng.random() < 0.5:
                hole = [x[0] + 1, y[0] + 1, x[1] - 1, y[1] - 1]
            ops.append(["rect", c, [x[0], y[0], x[1], y[1]], col, hole, rng.randrange(4), rng.random() < 0.3])
        elif k < 0.89:
            ops.append(["fill", rng.randrange(4)])
        elif k < 0.92 and t != "bw":
            ops.append(["bad", c, pt(), rng.choice([256, -1, 1000])])
        else:
            ops.append(["save", c, "i%d.pnm" % rng.randrange(2)])
    for c in range(len(cans)):
        ops.append(["save", c, "last%d.pnm" % c])
    return {"bufsize": gens.bufsize(rng), "canvases": cans, "ops": ops, "faults": [], "capacity": None}


def variants(rng, scn, res, tier):
    for _ in range(3 if tier == "quick" else 6):
        s = dict(scn)
        if rng.random() < 0.7:
            s["faults"] = gens.faults(rng, res, ("save",), persist=0)
        else:
            s["capacity"] = rng.randint(0, 600)
        if rng.random() < 0.5:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def decode(data):
    """(kind, width, height, pixels by row) of a raw PBM/PGM/PPM file."""
    if data is None:
        raise Violation("wrong-image", "no file")
    pos, toks = 2, []
    kind = data[:2]
    expect(kind in (b"P4", b"P5", b"P6"), "wrong-image", "magic %r" % kind)
    need = 2 if kind == b"P4" else 3
    while len(toks) < need:
        while pos < len(data) and (data[pos:pos + 1].isspace() or data[pos:pos + 1] == b"#"):
            if data[pos:pos + 1] == b"#":
                while pos < len(data) and data[pos:pos + 1] not in b"\r\n":
                    pos += 1
            else:
                pos += 1
        s = pos
        while pos < len(data) and data[pos:pos + 1].isdigit():
            pos += 1
        expect(s < pos, "wrong-image", "header %r" % data[:30])
        toks.append(int(data[s:pos]))
    expect(data[pos:pos + 1].isspace(), "wrong-image", "header %r" % data[:30])
    body = data[pos + 1:]
    W, H = toks[:2]
    if need == 3:
        expect(toks[2] == 255, "wrong-image", "maximum %d" % toks[2])
    row = (W + 7) // 8 if kind == b"P4" else W if kind == b"P5" else 3 * W
    expect(len(body) == row * H, "wrong-image", "%d bytes of pixels instead of %d" % (len(body), row * H))
    out = []
    for y in range(H):
        r = body[y * row:(y + 1) * row]
        if kind == b"P4":
            out.append([r[x // 8] >> (7 - x % 8) & 1 for x in range(W)])
        elif kind == b"P5":
            out.append(list(r))
        else:
            out.append([tuple(r[3 * x:3 * x + 3]) for x in range(W)])
    return kind, W, H, out


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    w.budget += 60 * max(c["w"] * c["h"] for c in scn["canvases"])
    R = C["raster"]
    cls = {"bw": R.BWCanvas, "gray": R.GrayCanvas, "color": R.ColorCanvas}
    default = {"bw": 0, "gray": 255, "color": (255, 255, 255)}
    magic = {"bw": b"P4", "gray": b"P5", "color": b"P6"}
    cvs, ms = [], []

    def val(t, v):
        if t == "color":
            if not isinstance(v, list) or len(v) != 3:
                raise Invalid("color")
            v = tuple(v)
            ok = v
        else:
            ok = (v,)
        if any(not isinstance(x, int) or not 0 <= x <= (1 if t == "bw" else 255) for x in ok):
            raise Invalid("color")
        return v
    for c in scn["canvases"]:
        if c["t"] not in cls or c["w"] < 1 or c["h"] < 1:
            raise Invalid("canvas")
        a = [] if c["bg"] is None else [val(c["t"], c["bg"])]
        cvs.append(w.must("canvas", cls[c["t"]], c["w"], c["h"], *a))
        ms.append([[a[0] if a else default[c["t"]]] * c["w"] for _ in range(c["h"])])
        w.probe(c["t"])
        if c["t"] == "bw" and c["w"] % 8:
            w.probe("odd-width")
            if c["bg"]:
                w.probe("bg1")

    def look(i, what, loose=None):
        """Every pixel of every canvas against the model; loose: {(x, y): allowed difference, None = unknown}."""
        for j, (cv, m) in enumerate(zip(cvs, ms)):
            for y, row in enumerate(m):
                for x, v in enumerate(row):
                    got = w.must("read", cv.__getitem__, (x, y))
                    if got == v:
                        continue
                    tol = loose.get((x, y), 0) if loose and j == i else 0
                    if tol is None:
                        row[x] = got
                        continue
                    a, b = (got, v) if isinstance(v, tuple) else ((got,), (v,))
                    try:
                        ok = len(a) == len(b) and max(abs(p - q) for p, q in zip(a, b)) <= tol
                    except TypeError:
                        ok = False
                    expect(ok, "wrong-pixel", "after %s: canvas %d pixel %d,%d is %r instead of %r" % (what, j, x, y, got, v))
                    row[x] = got

    def inside(c, p):
        return len(p) == 2 and 0 <= p[0] < c["w"] and 0 <= p[1] < c["h"]

    def mix(bg, fg, alpha):
        f = lambda a, b: int(a * (1 - alpha) + b * alpha + 0.5)
        return tuple(f(a, b) for a, b in zip(bg, fg)) if isinstance(bg, tuple) else f(bg, fg)

    def check_line(i, old, a, b, col, extra=()):
        """The pixels that changed form one straight run from a to b."""
        cv, m = cvs[i], ms[i]
        dx, dy = b[0] - a[0], b[1] - a[1]
        n = max(abs(dx), abs(dy))
        run = {}
        for s in range(n + 1):
            # along the major axis exactly one pixel per step, no further than half a pixel from the line
            fx, fy = (a[0] + dx * s / n, a[1] + dy * s / n) if n else (a[0], a[1])
            if abs(dx) >= abs(dy):
                cand = {(round(fx), y) for y in (math.floor(fy), math.ceil(fy)) if abs(y - fy) <= 0.5 + 1e-9}
            else:
                cand = {(x, round(fy)) for x in (math.floor(fx), math.ceil(fx)) if abs(x - fx) <= 0.5 + 1e-9}
            run[s] = cand
        return run

    def do_line(i, a, b, col, fn):
        m = ms[i]
        run = check_line(i, None, a, b, col)
        # make the outcome visible whatever the colour was: note which pixels hold col afterwards
        w.must("line", fn)
        for s, cand in run.items():
            if len(cand) == 1:
                x, y = next(iter(cand))
                m[y][x] = col
            else:
                # exactly half-way: one of the two
                got = [(x, y) for x, y in sorted(cand) if cvs[i][x, y] == col]
                expect(got, "wrong-pixel", "line %r-%r: nothing set at step %d" % (a, b, s))
                fresh = [(x, y) for x, y in got if m[y][x] != col]
                expect(len(fresh) <= 1, "wrong-pixel", "line %r-%r: two pixels set at step %d" % (a, b, s))
                for x, y in fresh:
                    m[y][x] = col

    def blend_line(m, a, b, v, loose):
        """An anti-aliased line: each step between the ends shares the colour among its two nearest pixels; an end gets half of it."""
        dx, dy = b[0] - a[0], b[1] - a[1]
        steep = abs(dy) > abs(dx)
        n = max(abs(dx), abs(dy))
        for x, y in (a, b):
            m[y][x] = mix(m[y][x], v, 0.5)
            loose[x, y] = loose.get((x, y), 0) + 2
        for s in range(1, n):
            fx, fy = a[0] + dx * s / n, a[1] + dy * s / n
            minor, major = (fx, round(fy)) if steep else (fy, round(fx))
            lo = math.floor(minor + 1e-9)
            fr = max(0.0, minor - lo)
            for p, alpha in ((lo, 1 - fr), (lo + 1, fr)):
                x, y = (p, major) if steep else (major, p)
                if alpha > 1e-6:
                    m[y][x] = mix(m[y][x], v, alpha)
                    loose[x, y] = loose.get((x, y), 0) + 2

    def fill_poly(i, v, scans, signed, loose, n):
        c, cv, m = scn["canvases"][i], cvs[i], ms[i]
        w.must("fill", cv.fillpolygons, scans, v)
        for y in range(c["h"]):
            for x in range(c["w"]):
                if (x, y) in loose:
                    got = cv[x, y]
                    expect(got in (v, m[y][x]), "wrong-pixel", "fill: %r at %d,%d" % (got, x, y))
                elif signed[y][x] > 0:
                    m[y][x] = v
        w.probe("poly" if n == 1 else "polys")
        look(i, "poly", loose)

    def fill_rect(i, v, scans, box, hole):
        c, cv, m = scn["canvases"][i], cvs[i], ms[i]
        x0, y0, x1, y1 = box
        w.must("fill", cv.fillpolygons, scans, v)
        for y in range(y0, y1):
            for x in range(x0, x1):
                if not (hole and hole[0] <= x < hole[2] and hole[1] <= y < hole[3]):
                    m[y][x] = v
        w.probe("rect")
        if x1 == c["w"] and x0 < x1 and y0 < y1:
            w.probe("rect-right")
        look(i, "rect")

    pend = []       # polygons scanned but not filled yet
    for op in scn["ops"]:
        k, i = op[0], op[1]
        if k != "fill" and i >= len(cvs):
            continue
        if k == "fill":
            if pend:
                job = pend.pop(i % len(pend))
                w.probe("later")
                job[0](*job[1:])
            continue
        c, cv, m = scn["canvases"][i], cvs[i], ms[i]
        t = c["t"]
        if k == "set":
            if not inside(c, op[2]):
                raise Invalid("pixel")
            v = val(t, op[3])
            w.must("set", cv.__setitem__, tuple(op[2]), v)
            m[op[2][1]][op[2][0]] = v
            look(i, k)
        elif k == "blend":
            if not inside(c, op[2]) or t == "bw" or not 0 <= op[4] <= 1:
                raise Invalid("pixel")
            v = val(t, op[3])
            x, y = op[2]
            w.must("blend", cv.__setitem__, (x, y), (v if t == "color" else (v,)) + (op[4],))
            m[y][x] = mix(m[y][x], v, op[4])
            w.probe("blend")
            look(i, k, {(x, y): 1 if 0 < op[4] < 1 else 0})
        elif k == "bad":
            if not inside(c, op[2]) or t == "bw":
                raise Invalid("pixel")
            st, e = w.call(cv.__setitem__, tuple(op[2]), op[3] if t == "gray" else (1, op[3], 2))
            expect(st == "exc", "bad-colour-accepted", "%r on a %s canvas" % (op[3], t))
            w.probe("refused")
            look(i, k)
        elif k == "line":
            if not inside(c, op[2]) or not inside(c, op[3]):
                raise Invalid("pixel")
            v = val(t, op[4])
            do_line(i, op[2], op[3], v, lambda: cv.line(tuple(op[2]), tuple(op[3]), v))
            w.probe("line")
            look(i, k)
        elif k == "stroke":
            v = val(t, op[3])
            pts = [tuple(p) for p in op[2]]
            if len(pts) < 2 or any(not inside(c, p) for p in pts) or t == "bw" and op[4]:
                raise Invalid("pixel")
            arg = list(pts)
            smooth = t != "bw" if op[4] is None else op[4]
            w.must("stroke", cv.strokepolygon, arg, v, *([] if op[4] is None else [op[4]]))
            expect(arg == pts, "argument-changed", "strokepolygon")
            loose = {}
            for a, b in zip(pts, pts[1:] + pts[:1]):
                if smooth:
                    blend_line(m, a, b, v, loose)
                    continue
                for s, cand in check_line(i, None, a, b, v).items():
                    for x, y in cand:
                        if len(cand) == 1:
                            m[y][x] = v
                        else:
                            loose[x, y] = None
            if not smooth:
                for (x, y) in loose:
                    if m[y][x] != v:
                        got = cv[x, y]
                        expect(got in (v, m[y][x]), "wrong-pixel", "outline: %r at %d,%d" % (got, x, y))
            w.probe("smooth-stroke" if smooth else "stroke")
            look(i, k, loose)
        elif k == "aa":
            a, b = op[2], op[3]
            if t == "bw" or not inside(c, a) or not inside(c, b):
                raise Invalid("pixel")
            v = val(t, op[4])
            w.must("aaline", cv.aaline, tuple(a), tuple(b), v if t == "color" else (v,))
            w.probe("aaline")
            loose = {}
            blend_line(m, a, b, v, loose)
            look(i, k, loose)
        elif k == "poly":
            v = val(t, op[3])
            scans = None
            signed = [[0] * c["w"] for _ in range(c["h"])]
            loose = {}
            for ring in op[2]:
                if len(ring) < 3 or area2(ring) <= 0 or any(not (0 <= p[0] <= c["w"] and 0 <= p[1] <= c["h"]) for p in ring):
                    raise Invalid("ring")
                arg = [tuple(p) for p in ring]
                scans = w.must("scan", cv.scanpolygon, arg, *([] if scans is None else [scans]))
                expect(arg == [tuple(p) for p in ring], "argument-changed", "scanpolygon")
                for (ax, ay), (bx, by) in zip(ring, ring[1:] + ring[:1]):
                    down = ay < by
                    if not down:
                        ax, ay, bx, by = bx, by, ax, ay
                    for y in range(ay, by):
                        # where the edge crosses the line, in 2*(by-ay)ths of a pixel; a pixel counts from its middle
                        at = 2 * (ax * (by - ay) + (bx - ax) * (y - ay))
                        for x in range(c["w"]):
                            d = (2 * x + 1) * (by - ay) - at
                            if d == 0:
                                loose[x, y] = None
                            if d >= 0:
                                signed[y][x] += -1 if down else 1
            look(i, "scan")
            job = (fill_poly, i, v, scans, signed, loose, len(op[2]))
            if len(op) > 4 and op[4]:
                pend.append(job)
            else:
                job[0](*job[1:])
        elif k == "rect":
            x0, y0, x1, y1 = op[2]
            if not (0 <= x0 <= x1 <= c["w"] and 0 <= y0 <= y1 <= c["h"]):
                raise Invalid("rect")
            v = val(t, op[3])
            pts = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
            r = op[5] % 4
            pts = pts[r:] + pts[:r]
            arg = list(pts)
            scans = w.must("scan", cv.scanpolygon, arg)
            expect(arg == pts, "argument-changed", "scanpolygon")
            hole = op[4]
            if hole:
                a, b, d, e = hole
                if not (x0 < a < d < x1 and y0 < b < e < y1):
                    raise Invalid("hole")
                scans = w.must("scan", cv.scanpolygon, [(a, b), (a, e), (d, e), (d, b)], scans)
                w.probe("hole")
            look(i, "scan")
            job = (fill_rect, i, v, scans, (x0, y0, x1, y1), hole)
            if len(op) > 6 and op[6]:
                pend.append(job)
            else:
                job[0](*job[1:])
        elif k == "save":
            fs.set_phase("save")
            path = op[2]
            if fs.exists(path):
                w.probe("overwrite")
            if scn["capacity"] is not None:
                fs.capacity = fs.used() - len(fs.peek(path) or b"") + scn["capacity"]
            for attempt in range(12):
                before = gens.errors_fired(w)
                st, v = w.call(cv.save, path)
                if st == "ok":
                    break
                expect(gens.errors_fired(w) > before, "save-failed", repr(v))
                w.probe("save-error")
                if fs.capacity is not None:
                    w.probe("diskfull")
                fs.capacity = None
            else:
                raise Violation("save-failed", "still failing without faults")
            fs.capacity = None
            fs.set_phase("-")
            kind, W, H, rows = decode(fs.peek(path))
            expect(kind == magic[t] and (W, H) == (c["w"], c["h"]), "wrong-image", "%s %dx%d instead of %s %dx%d" % (kind, W, H, magic[t], c["w"], c["h"]))
            # in a PBM file a set pixel is black: the bit itself is what the canvas stores
            for y in range(H):
                expect(rows[y] == m[y], "wrong-image", "row %d is %r instead of %r" % (y, rows[y], m[y]))
        else:
            raise Invalid("op")
    look(0, "everything")
