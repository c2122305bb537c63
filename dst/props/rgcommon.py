"""Row formats, entities and comparison shared by the RangeGrid properties."""
import keyword
import math

from ..core import Invalid, Violation, guard
from ..engine import C

NAMES = ["lon", "lat", "id", "name", "alt", "x", "y", "z", "pop", "code", "a1", "B2"]
ALPH = "abcXYZ 09-_áçÿßЖ中😀\t"


def gen_cols(rng):
    cols = []
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3, 4]))
    if rng.random() < 0.06:
        # names that cannot be attributes
        names[:1] = rng.sample(["geo code", "class", "2010", "_x", "a-b", "count", "index", "lon "], 1)
    wide = rng.random() < 0.012
    if wide:
        names = ["c%d" % i for i in range(rng.choice([20, 127, 128, 200, 255]))]
    for n in names:
        t = rng.choice("iifffs")
        null = rng.random() < 0.4
        if wide:
            cols.append({"t": "i", "name": n, "min": 0, "max": 200, "null": null} if t != "s" else {"t": "s", "name": n, "size": 2, "null": null})
            continue
        if t == "i":
            size = rng.choice([1, 1, 2, 4, 8])
            span = 256 ** size
            kind = rng.randrange(4)
            if kind == 0:
                # exactly filling the size, or just not (then the next size is needed)
                delta = max(1, min(span - rng.choice([0, 1, 1, 1, 2, 2, 3]), 256 ** 8 - 1 - null))
            elif kind == 1:
                delta = rng.choice([1, 2, 3])
            elif kind == 2:
                delta = min(span - 1 - null, 256 ** max(1, size // 2))
            else:
                delta = rng.randint(1, span - 1 - null)
            mn = rng.choice([0, 0, -1, 1, -180, 127, 128, -rng.randint(0, delta), rng.randint(-10 ** 6, 10 ** 6), -128, 300])
            cols.append({"t": "i", "name": n, "min": mn, "max": mn + delta, "null": null})
        elif t == "f":
            mn = rng.choice([0, -180, -90, -1, 5, -rng.randint(1, 10 ** 6), 128])
            d = rng.choice([1, 2, 180, 360, 359, 100, rng.randint(1, 10 ** 6)])
            cols.append({"t": "f", "name": n, "min": mn, "max": mn + d, "size": rng.choice([1, 2, 4, 8]), "null": null})
        else:
            cols.append({"t": "s", "name": n, "size": rng.choice([1, 2, 3, 8, 32, 127, 128, 200] + [300, 20000] * (rng.random() < 0.05)), "null": null})
    return cols


def gen_value(rng, c):
    if c["null"] and rng.random() < 0.25:
        return None
    if c["t"] == "i":
        k = rng.randrange(6)
        if k == 0:
            return c["min"]
        if k == 1:
            return c["max"]
        if k == 2:
            return c["min"] + min(1, c["max"] - c["min"])
        if k == 3:
            return max(c["min"], c["max"] - 1)
        return rng.randint(c["min"], c["max"])
    if c["t"] == "f":
        k = rng.randrange(6)
        if k == 0:
            return c["min"]
        if k == 1:
            return c["max"]
        if k == 2:
            return float(rng.randint(c["min"], c["max"]))
        return rng.uniform(c["min"], c["max"])
    n = rng.choice([0, 1, c["size"], c["size"], rng.randint(0, c["size"])])
    s = ""
    while len(s) < n:
        t = s + rng.choice(ALPH)
        if len(t.encode("utf8")) > n:
            if rng.random() < 0.5:
                break
            continue
        s = t
    while len(s.encode("utf8")) > c["size"]:
        s = s[:-1]
    if len(s) > 1 and rng.random() < 0.05:
        # NULs anywhere but at the end
        i = rng.randrange(len(s) - 1)
        s = s[:i] + "\0" + s[i + 1:]
    return s


def gen_bad(rng, c):
    """A value its column must reject."""
    if c["t"] in "if":
        opts = [c["min"] - 1, c["max"] + 1, "text"]
        if not c["null"]:
            opts.append(None)
        return rng.choice(opts)
    opts = ["x" * (c["size"] + 1), 5]
    if not c["null"]:
        opts.append(None)
    return rng.choice(opts)


def gen_ents(rng, cols, nmax=6, big=False):
    ents = []
    if len(cols) > 10 or any(c.get("size", 0) > 255 for c in cols):
        return [{"id": None, "segs": [[[gen_value(rng, c) for c in cols]]]} for _ in range(2)]
    ids = rng.sample(["x", "X", "x ", " x", "xx", "x  1", "x 1", "035", "35", "35 ", "-35", ""] if rng.random() < 0.25 else ["BR", "São Paulo", "Rio de Janeiro", "35", "x 1", "a", "b c d", "-", "0x", "north west 2", "7 0"], 11)
    if rng.random() < 0.02:
        # a crowd of little entities
        for i in range(rng.choice([11, 12, 25, 130, 260])):
            segs = [[[gen_value(rng, c) for c in cols]] for _ in range(rng.choice([0, 1, 1, 2]))]
            ents.append({"id": None if rng.random() < 0.7 else "%s%d" % (rng.choice(["x", "1 "]), i), "segs": segs})
        return ents
    for i in range(rng.choice([1, 2, 3, 4, nmax])):
        segs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            n = rng.choice([0, 1, 2, 3, 5, 9]) if not big else rng.choice([1, 5, 40, 120])
            segs.append([[gen_value(rng, c) for c in cols] for _ in range(n)])
        k = rng.random()
        ents.append({"id": None if k < 0.4 else ids[i] if k < 0.8 else 1000 + i, "segs": segs})
    return ents


def make_row(cols):
    g = C["grid"]
    fs = []
    try:
        for c in cols:
            if c["t"] == "i":
                fs.append(g.IVar(c["name"], c["min"], c["max"], bool(c["null"])))
            elif c["t"] == "f":
                fs.append(g.FVar(c["name"], c["min"], c["max"], c["size"], bool(c["null"])))
            else:
                fs.append(g.SVar(c["name"], c["size"], bool(c["null"])))
    except Exception as e:
        bad = any(c["t"] in "if" and c["max"] <= c["min"] or c["t"] == "i" and c["max"] - c["min"] >= 2 ** 64 - 1
                  or c["t"] == "f" and c.get("size") not in (1, 2, 4, 8) for c in cols)
        if bad:
            raise Invalid("columns")
        raise Violation("column-refused", repr((cols, e)))
    return g.GRow(*fs)


def tol(c):
    step = (c["max"] - c["min"]) / (256 ** c["size"] - 2)
    return step / 2 * (1 + 1e-9) + 8 * math.ulp(max(abs(c["min"]), abs(c["max"]), c["max"] - c["min"]))


def valid(cols, v):
    """Is this row one the format accepts?"""
    if len(v) != len(cols):
        return False
    for c, x in zip(cols, v):
        if x is None:
            if not c["null"]:
                return False
        elif c["t"] == "s":
            if not isinstance(x, str) or len(x.encode("utf8")) > c["size"] or x.endswith("\0"):
                return False
        elif c["t"] == "i":
            if not isinstance(x, int) or not c["min"] <= x <= c["max"]:
                return False
        elif not isinstance(x, (int, float)) or not c["min"] <= x <= c["max"]:
            return False
    return True


def check_scn(s):
    names = [c["name"] for c in s["cols"]]
    if not names or len(set(names)) != len(names) or not all(n and n.isascii() and "\0" not in n for n in names) or len(names) > 255:
        raise Invalid("names")
    for c in s["cols"]:
        if c["t"] == "s" and c["size"] < 1:
            raise Invalid("size")


def same(cols, want, got):
    """Does what the reader returned match what was written?"""
    with guard("malformed-entity"):
        if len(got) != len(want):
            return "%d segments instead of %d" % (len(got), len(want))
        for i, (ws, gs) in enumerate(zip(want, got)):
            if len(gs) != len(ws):
                return "segment %d: %d rows instead of %d" % (i, len(gs), len(ws))
            for j, (w, g) in enumerate(zip(ws, gs)):
                if len(g) != len(w):
                    return "row of %d values" % len(g)
                for c, a, b in zip(cols, w, g):
                    b2 = getattr(g, c["name"]) if c["name"].isidentifier() and not keyword.iskeyword(c["name"]) and c["name"][0] != "_" else b
                    if b2 != b or type(b2) is not type(b):
                        return "row.%s is %r, not %r" % (c["name"], b2, b)
                    if a is None or c["t"] == "s":
                        ok = a == b and type(a) is type(b)
                    elif c["t"] == "i":
                        ok = isinstance(b, int) and a == b
                    else:
                        ok = isinstance(b, (int, float)) and abs(a - b) <= tol(c)
                    if not ok:
                        return "segment %d row %d column %s: wrote %r, read %r" % (i, j, c["name"], a, b)
    return None
