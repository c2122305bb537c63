"""Ring simplification: same outline, closed, lazy and bounded."""
import math

from ..core import Invalid, Violation, expect
from ..engine import C
from .c18 import SourceError, cross, sheared, snap, walk

ID = "C21"
BUDGET = {"quick": (5000, 75), "thorough": (60000, 400)}
RULE = ("Seeded rings (round, star-shaped and random walks, straight sides, repeated points, slits at the start and elsewhere, rings without area, one point, none), explicitly closed or not, several rings with their own grids "
        "and buffer sizes; consumers that pull in seeded turns in one thread, or in threads pre-empted at any source line, stop early, or stall; sources that raise or deliver a malformed point; a third of the rings go through Frame.planify.")
REAL = ["coral.coord (simplify, sqr_fit, closed_no_slit, open_no_slit, collinear, Buffer)", "coral.frame (Frame.planify)"]
STUB = ["point sources with injected failures", "consumers (seeded scheduler)", "an identity projection for Frame.planify"]
ASSUME = ["grid coordinates are not within 1e-6 of a half unless exactly half on a grid of a power of two", "the vertex a ring starts at is free", "at most three buffers of corners are held back"]
PROBES = ["round", "slit", "start-on-side", "start-on-slit", "flat", "repeated", "empty", "single", "closed", "open", "held", "minimal", "source-error", "malformed", "early-close", "threads", "turns", "planify", "streamed", "huge"]


def ring(rng):
    kind = rng.choice(["round", "round", "star", "walk", "walk", "flat", "tiny", "box"])
    if kind == "round":
        n, r = rng.choice([3, 4, 5, 8, 12, 20, 40, 90]), rng.choice([3, 20, 1000])
        pts = [(round(r * math.cos(2 * math.pi * i / n)), round(r * math.sin(2 * math.pi * i / n))) for i in range(n)]
    elif kind == "star":
        n = rng.choice([5, 9, 16, 30, 60])
        pts = []
        for i in range(n):
            r = rng.randint(5, 60)
            pts.append((round(r * math.cos(2 * math.pi * i / n)), round(r * math.sin(2 * math.pi * i / n))))
    elif kind == "walk":
        pts = walk(rng, rng.choice([3, 4, 6, 10, 20, 50]))
    elif kind == "flat":
        dx, dy = rng.choice([(1, 0), (0, 1), (2, 1), (-1, 3)])
        pts = [(dx * v, dy * v) for v in [rng.randint(-9, 9) for _ in range(rng.choice([2, 3, 4, 9, 30]))]]
    elif kind == "tiny":
        pts = walk(rng, rng.choice([0, 1, 1, 2, 2, 3]))
    else:
        w, h, m = rng.randint(1, 9), rng.randint(1, 9), rng.choice([1, 2, 5])
        c = [(0, 0), (w * m, 0), (w * m, h * m), (0, h * m)]
        pts = []
        for (ax, ay), (bx, by) in zip(c, c[1:] + c[:1]):
            pts += [(ax + (bx - ax) * i // m, ay + (by - ay) * i // m) for i in range(m)]
    if pts and rng.random() < 0.5:
        # a slit somewhere, with corners
        i = rng.randrange(len(pts))
        x, y = pts[i]
        out = []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 9, 20])):
            x, y = x + rng.randint(-3, 3), y + rng.randint(-3, 3)
            out.append((x, y))
        pts = pts[:i + 1] + out + out[-2::-1] + pts[i:]
    if pts and rng.random() < 0.3:
        i = rng.randrange(len(pts))
        pts = pts[:i] + [pts[i]] * rng.choice([1, 2]) + pts[i:]
    if pts:
        i = rng.randrange(len(pts))
        pts = pts[i:] + pts[:i]
        if rng.random() < 0.3:
            pts.reverse()
        if rng.random() < 0.5:
            pts.append(pts[0])
    return pts


def generate(rng, tier):
    rings = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = rng.choice([1, 1, 0.5, 2, 4, 3, 0.1, 1000, 12.5])
        off = rng.choice(["exact", "exact", "jitter"])
        pts = ring(rng)
        if rng.random() < 0.12:
            pts = sheared(rng, pts)
        out = [[(v + (round(rng.uniform(-0.45, 0.45), 2) if off == "jitter" else 0)) * m for v in p] for p in pts]
        rings.append({"pts": out, "m": m, "k": rng.choice([None, None, 1, 2, 4, 8, 16]), "src": rng.choice(["gen", "gen", "list", "iter", "tuple"]),
                      "stop": rng.choice([None, None, None, None, 0, 1, 3, 8]), "bad": None, "call": rng.choice(["kw", "pos", "planify"])})
    return {"rings": rings, "mode": rng.choice(["alone", "turns", "turns", "threads"]), "order": [rng.randrange(6) for _ in range(rng.choice([0, 10, 60]))], "preempt": []}


def variants(rng, scn, res, tier):
    n = res["steps"]
    for _ in range(3 if tier == "quick" else 8):
        s = dict(scn)
        r = rng.random()
        if scn["mode"] == "threads" and n and r < 0.7:
            s["preempt"] = [[rng.randint(1, n), rng.randrange(4)] for _ in range(rng.choice([1, 3, 10, 40, 100]))]
        elif r < 0.3 and len(scn["rings"]) > 1:
            s["mode"] = "turns"
            s["order"] = [rng.randrange(6) for _ in range(60)]
        else:
            s["rings"] = [dict(x) for x in scn["rings"]]
            x = rng.choice(s["rings"])
            x["bad"] = [rng.randint(0, len(x["pts"])), rng.choice(["raise", "raise", "text", "short"])]
            x["src"] = "gen"
        yield s


def area2(g):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(g, g[1:] + g[:1]))


def winding(g, x2, y2):
    """Times the ring goes around (x2/2, y2/2), which lies on no edge."""
    n = 0
    for (ax, ay), (bx, by) in zip(g, g[1:] + g[:1]):
        if (2 * ay <= y2) != (2 * by <= y2):
            c = (2 * bx - 2 * ax) * (y2 - 2 * ay) - (x2 - 2 * ax) * (2 * by - 2 * ay)
            if by > ay:
                n += c > 0
            else:
                n -= c < 0
    return n


def onedge(g, x2, y2):
    for (ax, ay), (bx, by) in zip(g, g[1:] + g[:1]):
        if (2 * bx - 2 * ax) * (y2 - 2 * ay) == (x2 - 2 * ax) * (2 * by - 2 * ay) and \
                min(ax, bx) * 2 <= x2 <= max(ax, bx) * 2 and min(ay, by) * 2 <= y2 <= max(ay, by) * 2:
            return True
    return False


def cyclic_subsequence(v, g):
    """True if the vertices v occur in this order on one way around g."""
    n = len(g)
    at = {}
    for i, p in enumerate(g):
        at.setdefault(p, []).append(i)
    if any(p not in at for p in v):
        return False
    for s in at[v[0]]:
        o = 0
        for p in v[1:]:
            o = min((q for q in ((i - s) % n for i in at[p]) if q > o), default=None)
            if o is None:
                break
        else:
            return True
    return False


def distinct(g):
    """Without immediate repetitions."""
    out = []
    for p in g:
        if not out or p != out[-1]:
            out.append(p)
    while len(out) > 1 and out[0] == out[-1]:
        out.pop()
    return out


def simple(d):
    """True if the ring never turns back on itself; with the number of its corners."""
    n = 0
    for a, b, c in zip(d[-1:] + d[:-1], d, d[1:] + d[:1]):
        if cross(a, b, c):
            n += 1
        elif (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) < 0:
            return None
    return n


class Flat:
    lon0 = lat0 = 0
    r = 1

    def geo2rect(self, lon, lat):
        return lon, lat


def execute(scn, w):
    co, fr, bb = C["coord"], C["frame"], C["bbox"]
    if not scn["rings"]:
        raise Invalid("rings")
    st = []
    for x in scn["rings"]:
        k = x["k"] or 8
        if k & (k - 1) or x["m"] <= 0:
            raise Invalid("k")
        pts = [tuple(p) for p in x["pts"]]
        if any(len(p) != 2 for p in pts):
            raise Invalid("points")
        g = [(snap(a, x["m"]), snap(b, x["m"])) for a, b in pts]
        if x["call"] == "planify":
            k = 8
        if any(abs(v) > 2 ** 27 * x["m"] for p in pts for v in p):
            w.probe("huge")
        st.append({"x": x, "pts": pts, "k": k, "g": g, "d": distinct(g), "taken": 0, "out": [], "err": None, "ended": False})

    def source(s):
        bad = s["x"]["bad"]
        for i, p in enumerate(s["pts"]):
            s["taken"] += 1
            if bad and bad[0] == i:
                if bad[1] == "raise":
                    w.fire("source-error")
                    s["err"] = SourceError()
                    raise s["err"]
                w.fire("malformed")
                s["err"] = True
                yield ("x", p[1]) if bad[1] == "text" else (p[0],)
                continue
            yield p
        s["ended"] = True
        if bad and bad[0] >= len(s["pts"]) and bad[1] == "raise":
            w.fire("source-error")
            s["err"] = SourceError()
            raise s["err"]

    def begin(s):
        x = s["x"]
        src = {"gen": source(s), "iter": iter(s["pts"]), "list": [list(p) for p in s["pts"]], "tuple": tuple(s["pts"])}[x["src"]]
        s["src"] = src
        kw = {} if x["k"] is None else {"k": x["k"]}
        if x["call"] == "planify":
            w.probe("planify")
            f = fr.Frame(Flat(), bb.BBox((0, 0), (1, 1)))
            it = w.must("planify", f.planify, x["m"], src)
        elif x["call"] == "pos":
            it = w.must("simplify", co.simplify, src, x["m"], True, *kw.values())
        else:
            it = w.must("simplify", co.simplify, src, x["m"], closed=True, **kw)
        try:
            s["it"] = iter(it)
        except TypeError as e:
            raise Violation("not-a-stream", str(e))
        expect(s["taken"] <= 2, "not-lazy", "%d points taken before the first was asked for" % s["taken"])
        # corners seen after so many points, for rings that do not turn back
        s["corners"] = None
        if s["d"] and simple(s["d"]) is not None:
            seen = [0]
            line = []
            n = 0
            for p in s["g"]:
                if not line or p != line[-1]:
                    if len(line) > 1 and cross(line[-2], line[-1], p):
                        n += 1
                    line.append(p)
                seen.append(n)
            s["corners"] = seen

    def complete(s):
        x, g, d, out, k = s["x"], s["g"], s["d"], s["out"], s["k"]
        say = lambda: "%r (grid %g, buffer %s): %r" % (s["pts"], x["m"], x["k"], out)
        if not g:
            w.probe("empty")
            expect(not out, "made-up", say)
            return
        expect(out, "lost", say)
        w.probe("single" if len(g) == 1 else "closed" if g[0] == g[-1] else "open")
        if len(g) > len(d) + (g[0] == g[-1]):
            w.probe("repeated")
        v = list(out)
        if len(v) > 1:
            if g[0] == g[-1]:
                expect(v[0] == v[-1], "not-closed", say)
            elif simple(d) is not None or len(d) <= k:
                # with a slit too deep for the buffer the outline may end where it started
                expect(v[0] != v[-1], "closed-twice", say)
            if v[0] == v[-1]:
                v.pop()
        expect(cyclic_subsequence(v, d), "not-on-ring", say)
        expect(area2(v) == area2(d), "area-changed", lambda: "%s encloses %g instead of %g" % (say(), area2(v) / 2, area2(d) / 2))
        xs, ys = [p[0] for p in g], [p[1] for p in g]
        x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
        for i in range(24):
            if i % 4 == 3:
                # near a corner
                px, py = g[i * 7 % len(g)]
                px, py = 2 * px + 1 - (i & 16) // 8, 2 * py + 1 - (i & 8) // 4
            else:
                px = 2 * x0 + 1 + 2 * ((i * 7919 + 3) % max(1, x1 - x0))
                py = 2 * y0 + 1 + 2 * ((i * 104729 + i // 3) % max(1, y1 - y0))
            if onedge(d, px, py):
                continue
            expect(winding(v, px, py) == winding(d, px, py), "outline-changed", lambda: "%s around (%g, %g)" % (say(), px / 2, py / 2))
        n = simple(d)
        if n is None:
            w.probe("slit")
        elif n > 2:
            w.probe("round")
            w.ev("corners", n)
        if len(v) > 3 * k + 3:
            w.probe("streamed")
        if not area2(d) and len(v) == 1:
            w.probe("flat")
        if len(d) > 2 and not cross(d[-1], d[0], d[1]):
            w.probe("start-on-slit" if d[-1] == d[1] else "start-on-side")
        # nothing that could be removed is left, unless a slit was too deep for the buffer
        if n is not None or len(d) <= k:
            w.probe("minimal")
            expect(len(v) == 1 or all(cross(a, b, c) for a, b, c in zip(v[-1:] + v[:-1], v, v[1:] + v[:1])), "redundant-vertex", say)
        if n is not None and n > 2:
            corners = [b for a, b, c in zip(d[-1:] + d[:-1], d, d[1:] + d[:1]) if cross(a, b, c)]
            expect(sorted(v) == sorted(corners), "corners-changed", say)

    def pull(s):
        i = len(s["out"])
        x = s["x"]
        if x["stop"] is not None and i >= x["stop"]:
            w.probe("early-close")
            if hasattr(s["it"], "close"):
                w.must("close", s["it"].close)
            return False
        r = w.call(next, s["it"])
        if r[0] == "ok":
            p = r[1]
            w.ev("vertex", st.index(s), repr(p))
            expect(isinstance(p, (tuple, list)) and len(p) == 2, "malformed-vertex", repr(p))
            s["out"].append(tuple(p))
            expect(i < 2 * len(s["pts"]) + 2, "endless", repr(s["pts"]))
            expect(tuple(p) in s["g"], "wrong-vertex", lambda: "%r is no point of %r on a grid of %g" % (p, s["pts"], x["m"]))
            if x["src"] == "gen" and s["corners"] and not s["ended"]:
                w.probe("held")
                expect(s["corners"][min(s["taken"], len(s["g"]))] <= i + 3 * s["k"] + 6, "held-back",
                       lambda: "%d corners seen, %d delivered (buffer %d)" % (s["corners"][s["taken"]], i, s["k"]))
            return True
        e = r[1]
        if isinstance(e, StopIteration):
            expect(s["err"] is None, "error-swallowed", "the source failed but the ring just ended")
            complete(s)
            r = w.call(next, s["it"])
            expect(r[0] == "exc" and isinstance(r[1], StopIteration), "restarted", repr(r[1]))
            return False
        expect(s["err"] is not None, "unexpected-error:simplify", lambda: "%r: %s: %s" % (s["pts"], type(e).__name__, e))
        if isinstance(s["err"], Exception):
            expect(e is s["err"], "error-replaced", lambda: "%s: %s" % (type(e).__name__, e))
            w.probe("source-error")
        else:
            w.probe("malformed")
        return False

    def whole(s):
        begin(s)
        while pull(s):
            pass

    mode = scn["mode"]
    if mode == "threads" and len(st) > 1:
        w.probe("threads")
        for t, v in w.sched.run([lambda s=s: whole(s) for s in st], scn["preempt"]):
            if t == "exc":
                raise v
    elif mode == "turns" and len(st) > 1:
        w.probe("turns")
        order = list(scn["order"])
        live = list(st)
        while live:
            s = live[(order.pop(0) if order else 0) % len(live)]
            if "it" not in s:
                begin(s)
            elif not pull(s):
                live.remove(s)
    else:
        for s in st:
            whole(s)
    for s in st:
        if s["x"]["src"] == "list":
            expect(s["src"] == [list(p) for p in s["pts"]], "argument-changed", repr(s["src"]))
