"""Entities and comparison shared by the P-file properties."""
import math

from ..core import Invalid, expect, guard

NAMES = ["35", "BR", "Sao Paulo", "", "a b", "x", "Rio", "north-west", "7", "long name " * 8, "Z"]
ALIKE = ["x", "X", "x ", " x", "xx", "35", "035", "3", "35 ", "a b", "a  b", "ab", "A B", "", " "]


def wrap(lon, lat):
    while lon < -180:
        lon += 360
    while lon > 180:
        lon -= 360
    while lat < -90:
        lat += 180
    while lat > 90:
        lat -= 180
    return lon, lat


def gen_point(rng, box):
    x0, x1, y0, y1 = box
    k = rng.random()
    if k < 0.08:
        return [rng.choice([-180, 180, 0, -180.0, 179.999999]), rng.choice([-90, 90, 0, 45])]
    if k < 0.13:
        return [rng.choice([181, -190, 360, 359.5, -540, 725.25, 180.4, -180.4]), rng.choice([91, -95, 100, 180, -270, 450, 90.3, -90.3])]
    if k < 0.3:
        # exactly on the grid of the bounding range
        return [rng.randrange(65536) * 360 / 65535 - 180, rng.randrange(65536) * 180 / 65535 - 90]
    return [rng.uniform(x0, x1), rng.uniform(y0, y1)]


def gen_poly(rng, big=False, huge=False):
    k = rng.random()
    cx, cy = rng.uniform(-179, 179), rng.uniform(-89, 89)
    w = rng.choice([0, 1e-6, 1e-3, 0.01, 1, 10, 100])
    box = (max(-180, cx - w), min(180, cx + w), max(-90, cy - w / 2), min(90, cy + w / 2))
    n = rng.choice([1, 2, 3, 4, 5, 8] + ([30, 127, 128, 129, 140, 300] if big else []))
    pts = [gen_point(rng, box) for _ in range(n)]
    if huge:
        pts = (pts * 17000)[:rng.choice([16383, 16384, 16500])]
    if k < 0.1:
        pts = [[pts[0][0], p[1]] for p in pts]           # no width
    elif k < 0.2:
        pts = [[p[0], pts[0][1]] for p in pts]           # no height
    elif k < 0.25:
        pts = [pts[0] for p in pts]
    if rng.random() < 0.6:
        pts.append(list(pts[0]))                         # closed ring
    return pts


def gen_ents(rng, big=False, huge=False):
    if rng.random() < 0.02:
        # a crowd of little entities
        return [{"name": rng.choice(["%d", "n%d"]) % i, "polys": [[[rng.uniform(-170, 170), rng.uniform(-80, 80)] for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([1, 1, 2]))]}
                for i in range(rng.choice([11, 12, 127, 128, 140]))]
    names = rng.sample(NAMES if rng.random() < 0.7 else ALIKE, len(NAMES))
    return [{"name": names[i], "polys": [gen_poly(rng, big, huge and not i) for _ in range(rng.choice([1, 1, 1, 2, 3]))]}
            for i in range(rng.choice([1, 2, 3, 4, 6]))]


def valid_ent(e):
    n = e["name"]
    if not isinstance(n, str) or not n.isascii() or "\0" in n:
        return False
    return bool(e["polys"]) and all(len(p) >= 1 and all(len(q) == 2 and all(isinstance(v, (int, float)) for v in q) for q in p)
                                    for p in e["polys"])


def model(e):
    """Wrapped polygons without the repeated closing point."""
    out = []
    for p in e["polys"]:
        q = [wrap(*v) for v in p]
        if len(q) > 1 and q[0] == q[-1]:
            q = q[:-1]
        out.append(q)
    return out


def steps(polys, size):
    """Half a quantisation step per axis, for the entity's bounding range on the 16-bit grid."""
    xs = [p[0] for q in polys for p in q]
    ys = [p[1] for q in polys for p in q]
    out = []
    for vs, lo, full in ((xs, -180, 360), (ys, -90, 180)):
        a = math.floor((min(vs) - lo) * 65535 / full - 1e-9)
        b = math.ceil((max(vs) - lo) * 65535 / full + 1e-9)
        b = max(b, a + 1)
        out.append((b - a) * full / 65535 / (256 ** size - 1) / 2 * (1 + 1e-6) + 2e-10)
    return out


def same(e, size, got):
    want = model(e)
    with guard("malformed-entity"):
        if len(got) != len(want):
            return "%d polygons instead of %d" % (len(got), len(want))
        sx, sy = steps(want, size)
        for i, (wp, gp) in enumerate(zip(want, got)):
            if len(wp) != len(gp):
                return "polygon %d: %d points instead of %d" % (i, len(gp), len(wp))
            for j, ((a, b), (c, d)) in enumerate(zip(wp, gp)):
                if not (abs(a - c) <= sx and abs(b - d) <= sy):
                    return "polygon %d point %d: wrote %r, read %r (allowed %g, %g)" % (i, j, (a, b), (c, d), sx, sy)
    return None


def check_ents(ents):
    names = [e["name"] for e in ents]
    if len(set(names)) != len(names) or not all(valid_ent(e) for e in ents):
        raise Invalid("entities")


def distance(a, b):
    """Great-circle distance, on a sphere with the local earth radius (WGS 84)."""
    lat = math.radians((a[1] + b[1]) / 2)
    A, B = 6378137.0, 6356752.3
    r = math.sqrt(((A * A * math.cos(lat)) ** 2 + (B * B * math.sin(lat)) ** 2) / ((A * math.cos(lat)) ** 2 + (B * math.sin(lat)) ** 2))
    la, lb = math.radians(a[1]), math.radians(b[1])
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b[0] - a[0]) / 2) ** 2
    return 2 * r * math.asin(min(1, math.sqrt(h)))


def check_errors(errs, ents, reads):
    """The errors reported by close against the points a reader returned."""
    with guard("malformed-errors"):
        want = [p for e in ents for q in model(e) for p in q]
        got = [p for polys in reads for q in polys for p in q]
        expect(len(errs) == len(want), "errors-count", "%d errors for %d points" % (len(errs), len(want)))
        for i, (a, b, x) in enumerate(zip(want, got, errs)):
            d = distance(a, b)
            expect(abs(x - d) <= 0.01 * d + 1e-5, "errors-wrong", "point %d: error reported %r m, actual %r m" % (i, x, d))
