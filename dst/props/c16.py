"""Statistics: memoisation is invisible."""
import math
import weakref
from fractions import Fraction

from ..core import Invalid, Violation, expect
from ..engine import C

ID = "C16"
BUDGET = {"quick": (3500, 75), "thorough": (30000, 400)}
RULE = ("Seeded pools of sequences (equal sequences of other types, permutations, one-element changes, hash-colliding values, shared prefixes) and call histories long enough to hit, to evict and to clear the "
        "caches, run by one caller and by several callers pre-empted at every source line; calls on unsuitable arguments, and number objects whose arithmetic fails once at a chosen operation.")
REAL = ["coral.stats", "functools.lru_cache"]
STUB = ["thread scheduler (pre-emption at source lines of coral.stats)", "number objects with injected arithmetic errors"]
ASSUME = ["sequences of integers, floats and float subclasses, free of NaN and infinities; covariance and correlation on sequences of equal length",
          "rounding: relative 1e-9 plus the effect of a mean rounded to 1e-10 of the largest value; correlations only where neither sequence is nearly constant, Gini only where the mean is not nearly zero",
          "the reported hits and misses are compared in time order only for histories without a clear in another thread"]
PROBES = ["hit", "evict", "clear", "concurrent", "bad-argument", "retry", "collision", "released"]
ONE = ["max", "min", "sum", "len", "avg", "var", "std_dev", "gini_kakwani", "gini_deaton"]
TWO = ["covar", "corr"]
OFFSETS = {"near6": 10**6, "near9": 10**9, "nearneg": -3 * 10**7}
SCALES = {"tiny": 2.0 ** -23, "tinier": 1e-12, "large": 1e11}
BAD = ["list", "empty", "text", "mixed", "number", "none", "short"]


class ElementError(Exception):
    pass


class Plan:
    at = None
    n = 0
    world = None


def _op(name):
    base = getattr(float, name)

    def f(self, *a):
        if Plan.at is not None:
            Plan.n += 1
            if Plan.n == Plan.at:
                Plan.at = None
                Plan.world.fire("element-error")
                raise ElementError(name)
        return base(self, *a)
    return f


class Num(float):
    """A number object whose arithmetic can fail once."""
    for _n in ("__sub__", "__rsub__", "__add__", "__radd__", "__mul__", "__rmul__", "__lt__", "__gt__", "__le__", "__ge__"):
        locals()[_n] = _op(_n)
    __hash__ = float.__hash__
    __eq__ = float.__eq__


class Plain(float):
    """A number one can hold weak references to."""


def value(rng, kind):
    if kind == "int":
        return rng.choice([-2, -1, -1, 0, 1, 2, 3, 10, 1000, rng.randint(-50, 50)])
    if kind == "pos":
        return rng.choice([1, 2, 5, 7.5, 100, 1000, rng.randint(1, 60)])
    if kind in SCALES:
        return round(rng.uniform(0.1, 9), rng.choice([0, 1, 3])) * SCALES[kind]
    if kind in OFFSETS:
        # a spread that is small compared to the values
        return OFFSETS[kind] + rng.choice([0, 1, 2, 3, 0.5, 7.25, rng.randint(0, 40)])
    return round(rng.uniform(-1000, 1000), rng.choice([0, 1, 3]))


def generate(rng, tier):
    pool = []
    for _ in range(rng.choice([2, 3, 5])):
        kind = rng.choice(["int", "pos", "pos", "float", "float", rng.choice(sorted(OFFSETS) + sorted(SCALES))])
        pool.append([value(rng, kind) for _ in range(rng.choice([1, 2, 2, 3, 5, 8]))])
    if rng.random() < 0.05:
        pool.append([value(rng, "pos") for _ in range(rng.choice([16, 33, 51, 80]))])
    target = rng.choice([6, 12, 25, 60, 200]) if rng.random() < 0.8 else 4
    while len(pool) < target:
        s = list(rng.choice(pool))
        r = rng.random()
        if r < 0.2:
            rng.shuffle(s)
        elif r < 0.6:
            s[rng.randrange(len(s))] = value(rng, rng.choice(["int", "pos", "float"]))
        elif r < 0.7:
            s = [-2 if x == -1 else -1 if x == -2 else x for x in s]
        elif r < 0.8:
            s = [float(x) for x in s]
        elif r < 0.9:
            s = s + [value(rng, "pos")]
        elif len(s) > 1:
            s.pop()
        pool.append(s)

    def history(n):
        ops = []
        names = rng.sample(ONE + TWO, rng.choice([1, 2, 4, 11])) if rng.random() < 0.6 else ONE + TWO
        while len(ops) < n:
            r = rng.random()
            if r < 0.03:
                ops.append(["clear"])
            elif r < 0.09:
                ops.append(["bad", rng.choice(ONE + TWO), rng.choice(BAD), rng.randrange(len(pool))])
            elif r < 0.12:
                ops.append(["sweep", rng.choice(names), rng.randrange(len(pool))])
            elif r < 0.2 and ops:
                ops.append(["again"])
            else:
                ops.append(["call", rng.choice(names), rng.randrange(len(pool)), rng.randrange(len(pool)), rng.choice(["tuple", "tuple", "seq", "num", "num"])])
        return ops
    nth = rng.choice([1, 1, 2, 3])
    return {"pool": pool, "threads": [history(rng.choice([4, 10, 25, 60]) if nth == 1 else rng.choice([3, 8, 15])) for _ in range(nth)], "preempt": [], "element": None}


def variants(rng, scn, res, tier):
    n = res["steps"]
    for _ in range(3 if tier == "quick" else 8):
        s = dict(scn)
        if len(scn["threads"]) > 1 and n:
            s["preempt"] = [[rng.randint(1, n), rng.randrange(4)] for _ in range(rng.choice([1, 3, 10, 40, 100]))]
        elif res["hint"]:
            s["element"] = rng.randint(1, res["hint"])
        else:
            return
        yield s


def reference(name, a, b):
    """-> (exact value or None if undefined, tolerance) by the definitions, on fractions."""
    f = [Fraction(x) for x in a]
    n = len(f)
    big = max([abs(x) for x in f] + [1])
    if name == "len":
        return n, 0
    if name in ("max", "min"):
        return (max(f) if name == "max" else min(f)), 0
    tot = sum(f)
    if name == "sum":
        return tot, 1e-9 * big
    u = tot / n
    if name == "avg":
        return u, 1e-9 * big
    var = sum((x - u) ** 2 for x in f) / n
    if name == "var":
        return var, 1e-9 * float(var) + 1e-20 * float(big * big)
    if name == "std_dev":
        return math.sqrt(var), 1e-9 * math.sqrt(var) + 1e-10 * float(big)
    if name in ("covar", "corr"):
        g = [Fraction(x) for x in b]
        v = sum(g) / n
        bigb = max([abs(x) for x in g] + [1])
        cov = sum((x - u) * (y - v) for x, y in zip(f, g)) / n
        if name == "covar":
            varb = sum((y - v) ** 2 for y in g) / n
            return cov, 1e-9 * math.sqrt(var) * math.sqrt(varb) + 1e-20 * float(big * bigb)
        varb = sum((y - v) ** 2 for y in g) / n
        if var < Fraction(1, 10**12) * big * big or varb < Fraction(1, 10**12) * bigb * bigb:
            return None, 0
        return float(cov) / math.sqrt(var * varb), 1e-6
    if n < 2 or abs(u) < Fraction(1, 10**3) * big:
        return None, 0
    mad = sum(abs(x - y) for x in f for y in f) / (n * (n - 1))
    return mad / (2 * u), 1e-6


def execute(scn, w):
    S = C["stats"]
    pool, threads = scn["pool"], scn["threads"]
    if not pool or not threads or any(not s for s in pool):
        raise Invalid("pool")
    Plan.at, Plan.n, Plan.world = None, 0, w
    multi = len(threads) > 1
    clears = any(op[0] == "clear" for t in threads for op in t)
    refs = []
    count = [0]

    def make(i, how):
        s = pool[i % len(pool)]
        if how == "seq":
            r = tuple(Plain(x) for x in s)
            refs.extend((weakref.ref(x), i) for x in r)
            return r
        if how == "num":
            return tuple(Num(x) for x in s)
        return tuple(s)

    def info():
        r = w.must("cache_info", S.cache_info)
        try:
            h, m, size, cur = r.hits, r.misses, r.maxsize, r.currsize
        except AttributeError as e:
            raise Violation("malformed-info", str(e))
        expect(h >= 0 and m >= 0 and 0 <= cur <= size, "cache-info", repr(r))
        return h, m, size, cur

    def args(name, i, j, how):
        a = make(i, how)
        if name in TWO:
            b = list(pool[j % len(pool)])
            while len(b) < len(a):
                b += b
            return a, (tuple(Num(x) for x in b[:len(a)]) if how == "num" else tuple(b[:len(a)]))
        return (a,)

    def judge(name, arg, got):
        st, v = got
        want, tol = reference(name, arg[0], arg[1] if len(arg) > 1 else None)
        if want is None:
            return
        expect(st == "ok", "unexpected-error:" + name, lambda: "%s(%s) raised %r" % (name, ", ".join(map(repr, arg)), v))
        try:
            bad = not abs(Fraction(v) - Fraction(want)) <= tol
        except (TypeError, ValueError, OverflowError):
            bad = True
        expect(not bad, "wrong-value:" + name, lambda: "%s(%s) = %r instead of %s" % (name, ", ".join(map(repr, arg)), v, float(want)))

    def call(name, arg):
        count[0] += 1
        before = None if multi else info()
        got = w.call(getattr(S, name), *arg)
        if got[0] == "exc" and isinstance(got[1], ElementError):
            w.probe("retry")
            got = w.call(getattr(S, name), *arg)
            expect(not (got[0] == "exc" and isinstance(got[1], ElementError)), "sticky-error", name)
        judge(name, arg, got)
        if before is not None:
            after = info()
            expect(after[0] >= before[0] and after[1] >= before[1], "cache-info", "%r then %r" % (before, after))
            if got[0] == "ok":
                expect(after[0] + after[1] > before[0] + before[1], "cache-info", "%s not counted: %r then %r" % (name, before, after))
                if after[1] > before[1] and after[3] <= before[3]:
                    w.probe("evict")
                if after[1] == before[1]:
                    w.probe("hit")

    def client(ops):
        last = None
        for op in ops:
            if op[0] == "clear":
                w.must("cache_clear", S.cache_clear)
                w.probe("clear")
                if not multi:
                    r = info()
                    expect(r[0] == r[1] == r[3] == 0, "clear-left-info", repr(r))
                    for ref, i in refs:
                        expect(ref() is None, "clear-left-entries", lambda: "%r is still held" % (pool[i % len(pool)],))
                        w.probe("released")
                    del refs[:]
                last = None
            elif op[0] == "again":
                if last is None:
                    continue
                name, i, j, how = last
                before = None if multi else info()
                arg = args(name, i, j, how)
                got = w.call(getattr(S, name), *arg)
                if got[0] == "exc" and isinstance(got[1], ElementError):
                    continue
                judge(name, arg, got)
                arg = None
                ok, got = got[0] == "ok", None
                if before is not None and ok:
                    expect(info()[0] > before[0], "repeat-not-a-hit", name)
            elif op[0] == "call":
                if op[1] not in ONE + TWO:
                    raise Invalid("name")
                last = op[1:]
                call(op[1], args(*op[1:]))
            elif op[0] == "sweep":
                last = None
                k = min(len(pool), 140)
                for d in range(k):
                    call(op[1], args(op[1], op[2] + d, op[2] + 2 * d + 1, "tuple"))
            elif op[0] == "bad":
                last = None
                name, kind = op[1], op[2]
                s = pool[op[3] % len(pool)]
                two = name in TWO
                if kind == "list":
                    a = (list(s),)
                elif kind == "empty":
                    if name in ("len", "sum") or name == "covar":
                        continue
                    a = ((),)
                elif kind == "text":
                    if name in ("len", "max", "min"):
                        continue
                    a = (tuple("x%s" % x for x in s),)
                elif kind == "mixed":
                    if name == "len":
                        continue
                    a = (tuple(s) + ("x",),)
                elif kind == "number":
                    a = (s[0],)
                elif kind == "none":
                    a = (None,)
                else:
                    if not name.startswith("gini"):
                        continue
                    a = ((s[0],),)
                if two:
                    a = a * 2
                w.probe("bad-argument")
                for _ in range(2):
                    got = w.call(getattr(S, name), *a)
                    if got[0] == "exc" and isinstance(got[1], ElementError):
                        continue
                    if kind == "list" and got[0] == "ok":
                        judge(name, tuple(map(tuple, a)), got)
                        continue
                    expect(got[0] == "exc", "bad-argument-accepted:" + name, lambda: "%s(%s) = %r" % (name, ", ".join(map(repr, a)), got[1]))
            else:
                raise Invalid("op")
        return None

    hs = {}
    for s in pool:
        hs.setdefault(hash(tuple(s)), set()).add(tuple(s))
    if any(len(x) > 1 for x in hs.values()):
        w.probe("collision")
    if scn["element"] is not None:
        Plan.at = int(scn["element"])
    elif not multi:
        Plan.at = 10**9
    if multi:
        if not clears:
            base = info()
        res = w.sched.run([lambda t=t: client(t) for t in threads], scn["preempt"])
        w.probe("concurrent")
        for st, v in res:
            if st == "exc":
                raise v
        if not clears:
            end = info()
            expect(end[0] >= base[0] and end[1] >= base[1], "cache-info", "%r then %r" % (base, end))
    else:
        client(threads[0])
    w.hint = Plan.n if scn["element"] is None and not multi else None
    # afterwards, every value is still right, from the cache and afresh
    Plan.at = None
    for rnd in range(2):
        for k in range(min(len(pool), 6)):
            for name in ONE + TWO:
                arg = args(name, k, k + 1, "tuple")
                judge(name, arg, w.call(getattr(S, name), *arg))
        if rnd == 0:
            w.must("cache_clear", S.cache_clear)
            r = info()
            expect(r[0] == r[1] == r[3] == 0, "clear-left-info", repr(r))
