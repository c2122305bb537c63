"""Table pipelines: joins, selections and column changes, pulled lazily in any order."""
import collections
import sys

from ..core import Invalid, Violation, expect
from ..engine import C

ID = "C22"
BUDGET = {"quick": (6000, 75), "thorough": (80000, 400)}
RULE = ("Seeded tables (repeated keys, missing matches, shared and own columns, one row, one column) put through seeded chains of joins, selections, indexing, added and deleted columns; lazy stages pulled in seeded turns in one "
        "thread or in threads pre-empted at any source line, stopped early, with column functions that fail at a chosen row; set iteration order (hash randomisation) drawn from the seed; printing to a terminal whose writes fail.")
REAL = ["coral.table (join, getone, getall, indexby, addkey, delkeys, pprint)"]
STUB = ["iteration order of sets inside coral.table (seeded)", "terminal for pprint", "column functions with injected failures"]
ASSUME = ["tables are lists of at least one namedtuple, rows of one table have the same columns", "column names given exist, added ones are new, values are texts"]
PROBES = ["join", "join-miss", "join-many", "join-own-keys", "join-no-common", "overwritten", "getone", "getone-none", "getall", "indexby", "repeated-key", "addkey", "delkeys", "delkeys-all", "unknown-key",
          "pprint", "write-error", "func-error", "early-close", "turns", "threads", "lazy"]
KEYS = ["id", "name", "uf", "pop", "x1", "Area", "a_b", "z", "x", "na", "me", "a"]
VALS = ["", "a", "b", "c", "35", "35", "São", "x y", "long value here"]
LAZY = ("getall", "addkey", "delkeys")


class FuncError(Exception):
    pass


def mktable(rng, keys, n):
    return {"keys": keys, "rows": [[rng.choice(VALS) if rng.random() < 0.8 else "v%d" % rng.randrange(99) for _ in keys] for _ in range(n)]}


def generate(rng, tier):
    tables = [mktable(rng, rng.sample(KEYS, rng.choice([1, 2, 3, 4])), rng.choice([1, 1, 2, 3, 6, 15] + [30, 80, 150] * (rng.random() < 0.06))) for _ in range(rng.choice([1, 2, 2, 3]))]
    progs = []
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            k = rng.choice(["join", "join", "getone", "getall", "indexby", "addkey", "delkeys", "delkeys", "pprint"])
            ops.append({"op": k, "r": [rng.randrange(1000) for _ in range(6)], "stop": rng.choice([None, None, None, 0, 1, 3]), "fail": None})
        progs.append({"t": rng.randrange(len(tables)), "ops": ops})
    return {"tables": tables, "progs": progs, "mode": rng.choice(["alone", "turns", "turns", "threads"]), "order": [rng.randrange(6) for _ in range(rng.choice([0, 20, 60]))],
            "sets": rng.randrange(1 << 20), "preempt": [], "term": None}


def variants(rng, scn, res, tier):
    n = res["steps"]
    for _ in range(3 if tier == "quick" else 8):
        s = dict(scn)
        r = rng.random()
        if scn["mode"] == "threads" and n and r < 0.5:
            s["preempt"] = [[rng.randint(1, n), rng.randrange(4)] for _ in range(rng.choice([1, 3, 10, 40]))]
        elif r < 0.65:
            s["sets"] = rng.randrange(1 << 20)
        elif r < 0.8 and scn["mode"] == "alone":
            s["term"] = rng.randrange(30)
        else:
            s["progs"] = [dict(p, ops=[dict(o) for o in p["ops"]]) for p in s["progs"]]
            o = rng.choice(rng.choice(s["progs"])["ops"])
            o["fail"] = rng.randrange(8)
        yield s


class Set(set):
    """A set whose iteration order is drawn from the seed instead of from string hashes."""
    seed = 0

    def __iter__(self):
        v = sorted(set.__iter__(self), key=repr)
        r, n = Set.seed, len(v)
        for i in range(n - 1, 0, -1):
            r = (r * 1103515245 + 12345) & 0x7fffffff
            j = (r >> 8) % (i + 1)
            v[i], v[j] = v[j], v[i]
        return iter(v)


for _n in ("and", "or", "sub", "xor"):
    def _f(self, other, f=getattr(set, "__%s__" % _n)):
        r = f(self, other)
        return r if r is NotImplemented else Set(set.__iter__(r))
    setattr(Set, "__%s__" % _n, _f)
for _n in ("union", "intersection", "difference", "symmetric_difference", "copy"):
    def _f(self, *others, f=getattr(set, _n)):
        return Set(set.__iter__(f(self, *others)))
    setattr(Set, _n, _f)


class Term:
    def __init__(self, w, at):
        self.w, self.at, self.n, self.text, self.err = w, at, 0, "", None

    def write(self, s):
        self.n += 1
        if self.at is not None and self.n == self.at + 1:
            self.w.fire("write-error")
            self.err = OSError(5, "terminal gone")
            raise self.err
        self.text += s
        return len(s)

    def flush(self):
        pass


# model of a table: (columns, [tuple, ...])
def m_join(a, b, pivots, keys, w):
    common = [k for k in a[0] if k in b[0]]
    if pivots is None:
        pivots = common
        if not common:
            w.probe("join-no-common")
    cols = keys if keys is not None else list(a[0]) + [k for k in b[0] if k not in a[0]]
    out = []
    for r in a[1]:
        d = dict(zip(a[0], r))
        hits = [dict(zip(b[0], q)) for q in b[1]]
        hits = [h for h in hits if all(d.get(p, "") == h.get(p, "") for p in pivots)]
        w.probe("join-miss" if not hits else "join-many" if len(hits) > 1 else "join")
        if hits:
            if any(d[k] != hits[0][k] for k in common):
                w.probe("overwritten")
            d.update(hits[0])
        out.append(tuple(d.get(k, "") for k in cols))
    return cols, out


def execute(scn, w):
    T = C["table"]
    tabs = []
    for t in scn["tables"]:
        if not t["keys"] or not t["rows"] or any(len(r) != len(t["keys"]) for r in t["rows"]):
            raise Invalid("table")
        Row = collections.namedtuple("Row", t["keys"])
        tabs.append(((list(t["keys"]), [tuple(r) for r in t["rows"]]), [Row(*r) for r in t["rows"]]))
    Set.seed = scn["sets"]

    def same(got, cols, rows, what):
        """A list of rows as the model has it, columns in the same order."""
        expect(len(got) == len(rows), what + "-rows", lambda: "%d rows instead of %d: %r" % (len(got), len(rows), got))
        for g, r in zip(got, rows):
            row(g, cols, r, what)

    def row(g, cols, r, what):
        f = getattr(g, "_fields", None)
        expect(f is not None and isinstance(g, tuple), "malformed-row", lambda: "%s: %r" % (what, g))
        expect(sorted(f) == sorted(cols), what + "-columns", lambda: "columns %r instead of %r" % (f, cols))
        expect(list(f) == list(cols), what + "-column-order", lambda: "columns %r instead of %r" % (f, cols))
        expect(tuple(g) == tuple(r), what + "-values", lambda: "%r instead of %r" % (g, r))

    def program(p):
        """A generator: one step per pull; the table it works on changes from stage to stage."""
        if not 0 <= p["t"] < len(tabs):
            raise Invalid("table")
        (cols, rows), real = tabs[p["t"]]
        for o in p["ops"]:
            k, r = o["op"], o["r"]
            before = list(real)
            if k == "join":
                (bc, br), breal = tabs[r[0] % len(tabs)]
                bb = list(breal)
                allk = list(cols) + [c for c in bc if c not in cols]
                pv = None if r[1] % 2 else [c for i, c in enumerate(allk) if (r[2] >> i) & 1] or [allk[r[2] % len(allk)]]
                ks = None
                if r[3] % 3 == 0:
                    w.probe("join-own-keys")
                    ks = [allk[(i + r[4]) % len(allk)] for i in range(1 + r[5] % len(allk))]
                kw = {}
                if pv is not None:
                    kw["pivots"] = list(pv)
                if ks is not None:
                    kw["keys"] = list(ks)
                got = w.must("join", T.join, real, breal, **kw)
                ncols, nrows = m_join((cols, rows), (bc, br), pv, ks, w)
                expect(isinstance(got, list), "malformed-table", type(got).__name__)
                same(got, ncols, nrows, "join")
                expect(breal == bb, "argument-changed", "join changed its second table")
                expect(kw.get("pivots", pv) == pv and kw.get("keys", ks) == ks, "argument-changed", "join changed its lists")
                cols, rows, nreal = ncols, nrows, got
                yield
            elif k == "getone":
                c = cols[r[0] % len(cols)]
                q = rows[r[1] % len(rows)][cols.index(c)] if r[2] % 4 else "nowhere"
                q = "".join(list(q))  # equal, but another object
                got = w.must("getone", T.getone, real, c, q)
                hit = [x for x in rows if x[cols.index(c)] == q]
                if hit:
                    w.probe("getone")
                    expect(got is not None, "getone-missing", lambda: "no row with %s=%r in %r" % (c, q, rows))
                    row(got, cols, hit[0], "getone")
                else:
                    w.probe("getone-none")
                    expect(got is None, "getone-made-up", repr(got))
                nreal = real
                yield
            elif k == "indexby":
                c = cols[r[0] % len(cols)]
                w.probe("indexby")
                got = w.must("indexby", T.indexby, real, c)
                i = cols.index(c)
                rest = cols[:i] + cols[i + 1:]
                want = {}
                for x in rows:
                    if x[i] in want:
                        w.probe("repeated-key")
                    want[x[i]] = x[:i] + x[i + 1:]
                try:
                    keys = sorted(got.keys())
                except (AttributeError, TypeError) as e:
                    raise Violation("malformed-index", str(e))
                expect(keys == sorted(want), "indexby-keys", lambda: "%r instead of %r" % (keys, sorted(want)))
                for key in want:
                    row(got[key], rest, want[key], "indexby")
                nreal = real
                yield
            elif k == "pprint":
                ks = None if r[0] % 2 else [cols[(i + r[1]) % len(cols)] for i in range(1 + r[2] % len(cols))]
                t = Term(w, scn["term"])
                old, sys.stdout = sys.stdout, t
                try:
                    res = w.call(T.pprint, real, *([] if ks is None else [list(ks)]))
                finally:
                    sys.stdout = old
                if res[0] == "exc":
                    expect(t.err is not None and res[1] is t.err, "unexpected-error:pprint", lambda: "%s: %s" % (type(res[1]).__name__, res[1]))
                    w.probe("write-error")
                else:
                    expect(t.err is None, "error-swallowed", "pprint returned although the terminal failed")
                    w.probe("pprint")
                    kk = cols if ks is None else ks
                    width = [max([len(c)] + [len(x[cols.index(c)]) for x in rows]) for c in kk]
                    lines = [" | ".join(v.ljust(n) for v, n in zip(kk, width)), "-+-".join("-" * n for n in width)]
                    lines += [" | ".join(x[cols.index(c)].ljust(n) for c, n in zip(kk, width)) for x in rows]
                    expect([s.rstrip() for s in t.text.split("\n")] == [s.rstrip() for s in lines] + [""], "pprint", lambda: "%r instead of %r" % (t.text, lines))
                nreal = real
                yield
            elif k in LAZY:
                calls = []
                err = FuncError()
                if k == "getall":
                    c = cols[r[0] % len(cols)]
                    q = rows[r[1] % len(rows)][cols.index(c)] if r[2] % 4 else "nowhere"
                    ncols, nrows = cols, [x for x in rows if x[cols.index(c)] == q]
                    res = w.must(k, T.getall, real, c, q)
                elif k == "addkey":
                    new = [c for c in KEYS if c not in cols]
                    if not new:
                        continue
                    c = new[r[0] % len(new)]

                    def func(x):
                        calls.append(x)
                        if o["fail"] is not None and len(calls) == o["fail"] + 1:
                            w.fire("func-error")
                            raise err
                        return "".join(x)[:r[1] % 7] + c
                    ncols, nrows = cols + [c], [x + ("".join(x)[:r[1] % 7] + c,) for x in rows]
                    res = w.must(k, T.addkey, real, c, func)
                else:
                    dead = [c for i, c in enumerate(cols) if (r[0] >> i) & 1]
                    if r[1] % 3 == 0:
                        w.probe("unknown-key")
                        dead.insert(r[2] % (len(dead) + 1), "nothing")
                    if len([c for c in dead if c in cols]) == len(cols):
                        w.probe("delkeys-all")
                    keep = [i for i, c in enumerate(cols) if c not in dead]
                    ncols, nrows = [cols[i] for i in keep], [tuple(x[i] for i in keep) for x in rows]
                    arg = {0: list(dead), 1: tuple(dead), 2: set(dead)}[r[3] % 3]
                    res = w.must(k, T.delkeys, real, arg)
                w.probe(k)
                try:
                    it = iter(res)
                except TypeError as e:
                    raise Violation("not-a-stream", "%s: %s" % (k, e))
                expect(not calls, "not-lazy", "%s: %d rows computed before the first was asked for" % (k, len(calls)))
                nreal, ended = [], False
                while True:
                    yield
                    if o["stop"] is not None and len(nreal) >= o["stop"]:
                        w.probe("early-close")
                        if hasattr(it, "close"):
                            w.must("close", it.close)
                        break
                    g = w.call(next, it)
                    i = len(nreal)
                    if g[0] == "ok":
                        expect(i < len(nrows), k + "-rows", lambda: "one row too many: %r" % (g[1],))
                        row(g[1], ncols, nrows[i], k)
                        nreal.append(g[1])
                        if k == "addkey":
                            w.probe("lazy")
                            expect(len(calls) == i + 1, "not-lazy", "%d calls for %d rows" % (len(calls), i + 1))
                            row(calls[i], cols, rows[i], "argument")
                        continue
                    if isinstance(g[1], StopIteration):
                        expect(i == len(nrows), k + "-rows", lambda: "%d rows instead of %d" % (i, len(nrows)))
                        ended = True
                        break
                    expect(g[1] is err, "unexpected-error:" + k, lambda: "%s: %s" % (type(g[1]).__name__, g[1]))
                    expect(i == o["fail"], "prefix-lost", lambda: "%d rows delivered before row %d failed" % (i, o["fail"]))
                    w.probe("func-error")
                    break
                if k == "addkey" and o["fail"] is not None and o["fail"] < len(nrows) and ended:
                    raise Violation("error-swallowed", "the column function failed for row %d" % o["fail"])
                expect(real == before, "argument-changed", lambda: "%s changed its table" % k)
                if not ended or not nreal or not ncols:
                    nreal = real
                else:
                    cols, rows = ncols, nrows
                w.ev(k, len(nreal))
            else:
                raise Invalid("op")
            expect(real == before, "argument-changed", lambda: "%s changed its table" % k)
            w.ev("table", repr(cols), repr(rows[:3]))
            real = nreal

    had = T.__dict__.get("set", Set)
    T.set = Set
    try:
        ps = [program(p) for p in scn["progs"]]
        mode = scn["mode"]
        if mode == "threads" and len(ps) > 1 and not any(o["op"] == "pprint" for p in scn["progs"] for o in p["ops"]):
            w.probe("threads")

            def drain(g):
                for _ in g:
                    pass
            for t, v in w.sched.run([lambda g=g: drain(g) for g in ps], scn["preempt"]):
                if t == "exc":
                    raise v
        elif mode == "turns" and len(ps) > 1:
            w.probe("turns")
            order = list(scn["order"])
            live = list(ps)
            while live:
                g = live[(order.pop(0) if order else 0) % len(live)]
                try:
                    next(g)
                except StopIteration:
                    live.remove(g)
        else:
            for g in ps:
                for _ in g:
                    pass
        for (cols, rows), real in tabs:
            same(real, cols, rows, "table")
    finally:
        if had is Set:
            del T.set
        else:
            T.set = had
