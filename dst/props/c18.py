"""Line simplification: lazy, bounded, exact stream transformer."""
import math

from ..core import Invalid, Violation, expect
from ..engine import C

ID = "C18"
BUDGET = {"quick": (6250, 75), "thorough": (60000, 400)}
RULE = ("Seeded point streams (walks on and off the grid, straight runs, repeated points, slits of every depth around the buffer size, spikes, empty and single-point lines), several streams with their own grids and "
        "buffer sizes; consumers that pull in seeded turns in one thread, or in threads pre-empted at any source line, stop early, or stall; sources that raise or deliver a malformed point at a chosen position.")
REAL = ["coral.coord (simplify, sqr_fit, open_no_slit, collinear, Buffer)"]
STUB = ["point sources with injected failures", "consumers (seeded scheduler)"]
ASSUME = ["grid coordinates are not within 1e-6 of a half unless exactly half on a grid of a power of two", "two points of look-ahead more than needed are tolerated"]
PROBES = ["slit", "deep-slit", "slit-beyond-buffer", "collinear", "repeated", "empty", "single", "source-error", "malformed", "early-close", "threads", "turns", "half", "corner-kept", "huge"]


class SourceError(Exception):
    pass


def walk(rng, n):
    x, y = rng.randint(-20, 20), rng.randint(-20, 20)
    pts = [(x, y)]
    while len(pts) < n:
        r = rng.random()
        if r < 0.15:
            pts.append(pts[-1])
        elif r < 0.35:
            dx, dy = rng.choice([(1, 0), (0, 1), (-1, 0), (2, 1), (-1, -1)])
            for _ in range(rng.choice([2, 3])):
                x, y = x + dx, y + dy
                pts.append((x, y))
        elif r < 0.6 and len(pts) > 1:
            # go back the way we came
            d = min(len(pts) - 1, rng.choice([1, 1, 2, 3, 5, 9, 17]))
            pts.extend(pts[-1 - d:-1][::-1])
            x, y = pts[-1]
        elif r < 0.65:
            x, y = pts[rng.randrange(len(pts))]
            pts.append((x, y))
        else:
            x, y = x + rng.randint(-4, 4), y + rng.randint(-4, 4)
            pts.append((x, y))
    return pts[:n]


def sheared(rng, pts):
    """The same shape seen through a map of determinant 1: huge coordinates, the same crosses."""
    a, b = 1, 1
    for _ in range(rng.choice([20, 38, 42, 44])):
        a, b = b, a + b
    # consecutive Fibonacci numbers: a product of shears
    return [(b * x + a * y, a * x + (b - a) * y) for x, y in pts]


def generate(rng, tier):
    streams = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = rng.choice([1, 1, 0.5, 2, 4, 3, 0.1, 1000, 12.5])
        pts = walk(rng, rng.choice([0, 1, 2, 3, 4, 6, 10, 20, 50]))
        off = rng.choice(["exact", "exact", "jitter", "half"])
        if rng.random() < 0.15:
            pts = sheared(rng, pts)
        out = []
        for x, y in pts:
            q = []
            for v in (x, y):
                if off == "jitter":
                    q.append((v + round(rng.uniform(-0.45, 0.45), 2)) * m)
                elif off == "half" and m in (1, 0.5, 2, 4) and rng.random() < 0.3:
                    q.append((v + rng.choice([-0.5, 0.5])) * m)
                else:
                    q.append(v * m)
            out.append(q)
        k = rng.choice([None, 1, 2, 2, 4, 8, 16])
        streams.append({"pts": out, "m": m, "k": k, "src": rng.choice(["gen", "gen", "list", "iter", "tuple"]), "stop": rng.choice([None, None, None, 0, 1, 3, 8]), "bad": None, "kw": rng.random() < 0.5})
    return {"streams": streams, "mode": rng.choice(["alone", "turns", "turns", "threads"]), "order": [rng.randrange(6) for _ in range(rng.choice([0, 10, 60]))], "preempt": []}


def variants(rng, scn, res, tier):
    n = res["steps"]
    for _ in range(3 if tier == "quick" else 8):
        s = dict(scn)
        r = rng.random()
        if scn["mode"] == "threads" and n and r < 0.7:
            s["preempt"] = [[rng.randint(1, n), rng.randrange(4)] for _ in range(rng.choice([1, 3, 10, 40, 100]))]
        elif r < 0.3 and len(scn["streams"]) > 1:
            s["mode"] = "turns"
            s["order"] = [rng.randrange(6) for _ in range(60)]
        else:
            s["streams"] = [dict(x) for x in scn["streams"]]
            x = rng.choice(s["streams"])
            x["bad"] = [rng.randint(0, len(x["pts"])), rng.choice(["raise", "raise", "text", "short"])]
            x["src"] = "gen"
        yield s


def snap(v, m):
    q = v / m
    f = abs(q) - math.floor(abs(q))
    if abs(f - 0.5) < 1e-6 and not (f == 0.5 and math.log2(m) == int(math.log2(m))):
        raise Invalid("ambiguous rounding")
    n = math.floor(abs(q) + 0.5)
    return int(-n if q < 0 else n)


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def reference(pts, m, k, w):
    """Whole-line version: list of (vertex, points that had to arrive before it could be delivered)."""
    g = [(snap(x, m), snap(y, m)) for x, y in pts]
    if not g:
        w.probe("empty")
        return []
    if len(g) == 1:
        w.probe("single")
        return [(g[0], 1)]
    kept = [(g[0])]          # every vertex of the simplified line so far
    when = {0: 1}            # index in kept -> number of points needed
    sent = 1                 # how many of them have been delivered
    line = [g[0], g[1]]      # the line walked so far without immediate repetitions
    run = 0
    for i in range(2, len(g)):
        r = g[i]
        p, q = line[-2], line[-1]
        if r == q:
            w.probe("repeated")
            continue
        if cross(p, q, r):
            if len(kept) > sent and kept[-1] == q:
                kept.pop()
                run += 1
                w.probe("slit")
                if run > 1:
                    w.probe("deep-slit")
                if cross(kept[-1], q, r):
                    w.probe("corner-kept")
                    kept.append(q)
            else:
                if kept[-1] == q and sent > 1:
                    w.probe("slit-beyond-buffer")
                run = 0
                kept.append(q)
            if len(kept) - sent > k:
                when[sent] = i + 1
                sent += 1
        else:
            w.probe("collinear")
        line.append(r)
    kept.append(line[-1])
    return [(v, when.get(i, len(g))) for i, v in enumerate(kept)]


def execute(scn, w):
    co = C["coord"]
    streams = scn["streams"]
    if not streams:
        raise Invalid("streams")
    st = []
    for x in streams:
        k = x["k"] or 8
        if k & (k - 1) or x["m"] <= 0:
            raise Invalid("k")
        pts = [tuple(p) for p in x["pts"]]
        if any(len(p) != 2 for p in pts):
            raise Invalid("points")
        ref = reference(pts, x["m"], k, w)
        if any(abs(v) > 2 ** 27 * x["m"] for p in pts for v in p):
            w.probe("huge")
        if any(abs(abs(v / x["m"]) % 1 - 0.5) < 1e-12 for p in pts for v in p):
            w.probe("half")
        st.append({"x": x, "pts": pts, "ref": ref, "taken": 0, "out": [], "end": None, "err": None})

    def source(s):
        bad = s["x"]["bad"]
        for i, p in enumerate(s["pts"]):
            if bad and bad[0] == i:
                s["taken"] += 1
                if bad[1] == "raise":
                    w.fire("source-error")
                    s["err"] = SourceError()
                    raise s["err"]
                w.fire("malformed")
                s["err"] = True
                yield ("x", p[1]) if bad[1] == "text" else (p[0],)
                continue
            s["taken"] += 1
            yield p
        if bad and bad[0] >= len(s["pts"]) and bad[1] == "raise":
            w.fire("source-error")
            s["err"] = SourceError()
            raise s["err"]

    def begin(s):
        x = s["x"]
        src = {"gen": source(s), "iter": iter(s["pts"]), "list": [list(p) for p in s["pts"]], "tuple": tuple(s["pts"])}[x["src"]]
        s["src"] = src
        a = (src, x["m"])
        if x["k"] is None:
            it = w.must("simplify", co.simplify, *a)
        elif x["kw"]:
            it = w.must("simplify", co.simplify, *a, k=x["k"])
        else:
            it = w.must("simplify", co.simplify, *a, False, x["k"])
        try:
            s["it"] = iter(it)
        except TypeError as e:
            raise Violation("not-a-stream", str(e))
        expect(s["taken"] <= 2, "not-lazy", "%d points taken before the first was asked for" % s["taken"])

    def pull(s):
        """One step; True while the stream goes on."""
        i = len(s["out"])
        if s["x"]["stop"] is not None and i >= s["x"]["stop"]:
            w.probe("early-close")
            if hasattr(s["it"], "close"):
                w.must("close", s["it"].close)
            s["end"] = "closed"
            return False
        r = w.call(next, s["it"])
        ref = s["ref"]
        if r[0] == "ok":
            s["out"].append(r[1])
            w.ev("vertex", st.index(s), repr(r[1]))
            expect(isinstance(r[1], (tuple, list)) and len(r[1]) == 2, "malformed-vertex", repr(r[1]))
            expect(i < len(ref) or s["err"], "extra-vertex", lambda: "%r after %r" % (r[1], s["out"][:-1]))
            expect(i < len(ref) and tuple(r[1]) == ref[i][0], "wrong-vertex", lambda: "vertex %d of %r (grid %g, buffer %s) is %r instead of %r; so far %r" % (
                i, s["pts"], s["x"]["m"], s["x"]["k"], r[1], ref[i][0] if i < len(ref) else None, s["out"][:-1]))
            if s["x"]["src"] == "gen":
                expect(s["taken"] <= ref[i][1] + 2, "held-back", lambda: "vertex %d delivered after %d points instead of %d" % (i, s["taken"], ref[i][1]))
            return True
        e = r[1]
        if isinstance(e, StopIteration):
            expect(s["err"] is None, "error-swallowed", "the source failed but the stream just ended")
            expect(i == len(ref), "missing-vertices", lambda: "%r ended after %r instead of %r" % (s["pts"], s["out"], [v for v, _ in ref]))
            s["end"] = "end"
            # an ended stream stays ended
            r = w.call(next, s["it"])
            expect(r[0] == "exc" and isinstance(r[1], StopIteration), "restarted", repr(r[1]))
            return False
        expect(s["err"] is not None, "unexpected-error:simplify", lambda: "%r: %s: %s" % (s["pts"], type(e).__name__, e))
        if isinstance(s["err"], Exception):
            expect(e is s["err"], "error-replaced", lambda: "%s: %s" % (type(e).__name__, e))
            w.probe("source-error")
        else:
            w.probe("malformed")
        # everything that could be delivered before the failing point has been delivered
        at = s["x"]["bad"][0]
        due = sum(1 for v, n in ref if n <= at - 2) if at < len(s["pts"]) else 0
        expect(i >= due, "prefix-lost", lambda: "%d of %d vertices delivered before the error" % (i, due))
        s["end"] = "error"
        return False

    def whole(s):
        begin(s)
        while pull(s):
            pass

    mode = scn["mode"]
    if mode == "threads" and len(st) > 1:
        w.probe("threads")
        for t, v in w.sched.run([lambda s=s: whole(s) for s in st], scn["preempt"]):
            if t == "exc":
                raise v
    elif mode == "turns" and len(st) > 1:
        w.probe("turns")
        order = list(scn["order"])
        live = list(st)
        while live:
            s = live[(order.pop(0) if order else 0) % len(live)]
            if "it" not in s:
                begin(s)
            elif not pull(s):
                live.remove(s)
    else:
        for s in st:
            whole(s)
    for s in st:
        if s["x"]["src"] == "list":
            expect(s["src"] == [list(p) for p in s["pts"]], "argument-changed", repr(s["src"]))
