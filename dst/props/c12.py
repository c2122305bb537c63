"""Progress bar: transparent iteration, paced and correct display under any clock."""
import re

from .. import patch
from ..core import Invalid, Violation, expect
from ..engine import C

ID = "C12"
BUDGET = {"quick": (15000, 75), "thorough": (150000, 420)}
RULE = ("Seeded histories over 1-3 progress bars (lists, ranges, generators, objects with right, wrong or no length; with and without total, description and line left) pulled in any order "
        "while a simulated clock advances during sources and consumers; sources that raise, bars closed early, clocks that stall, jump ahead or run backwards.  Each bar writes to a "
        "simulated terminal that shows only what was flushed.")
REAL = ["coral.tqdm"]
STUB = ["clock", "terminal (carriage return and newline, visible after flush)"]
ASSUME = ["the terminal is wide enough for one line and its writes succeed", "display rules are asserted only for bars that saw no wall-clock step; transparency always"]
PROBES = ["update", "no-total", "wrong-total", "source-error", "closed", "backwards", "jump", "stall", "no-leave", "stderr", "shrunk-line", "several", "hours", "trange"]
NOSHRINK = ("src",)
# all times are multiples of 1/q s, q a power of two: exact in floating point
SRC = ["list", "gen", "iter", "len", "badlen", "range", "dict"]


def generate(rng, tier):
    bars = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 5, 9, 12, 30] + [150, 1100] * (rng.random() < 0.02))
        src = rng.choice(SRC)
        bars.append({"src": src, "n": n, "fake": rng.choice([n, n + 3, max(0, n - 2)]), "total": rng.choice([None, None, None, n, n + 1, max(0, n - 1), 0, 10 * n + 7, rng.choice([1000, 123456, 10 ** 7])]),
                     "desc": rng.choice(["", "", "work", "a: b"]), "leave": rng.random() < 0.7, "mi": rng.choice([None, None, 0, 1, 32, 64, 200]), "it": rng.choice([None, None, 0, 1, 2, 5]),
                     "fail": rng.randrange(n + 1) if src in ("gen", "iter") and rng.random() < 0.2 else None,
                     "dt": [rng.choice([0, 0, 1, 5, 40, 64]) for _ in range(rng.choice([1, 2, 3]))], "err": rng.random() < 0.2})
    if sum(b["err"] for b in bars) > 1:
        for b in bars[1:]:
            b["err"] = False
    script = []
    total = sum(b["n"] + 2 for b in bars)
    slow = rng.choice([0, 1, 10, 64, 64 * 100, 64 * 4000])
    for _ in range(int(total * rng.choice([0.5, 1, 1.5, 2]))):
        k = rng.random()
        if k < 0.6:
            script.append(["next", rng.randrange(len(bars))])
        elif k < 0.985:
            script.append(["adv", rng.choice([0, 1, 3, 16, 32, 33, 64, 100, slow])])
        else:
            script.append(["close", rng.randrange(len(bars))])
    return {"bars": bars, "script": script, "drain": rng.random() < 0.9, "q": rng.choice([64, 64, 64, 64, 1 << 12, 1 << 20, 4])}


def variants(rng, scn, res, tier):
    for _ in range(3 if tier == "quick" else 6):
        s = dict(scn)
        sc = list(scn["script"])
        r = rng.random()
        if r < 0.5:
            for _ in range(rng.choice([1, 1, 2, 4])):
                sc.insert(rng.randint(0, len(sc)), ["jump", rng.choice([-1, -32, -64, -64 * 10, -64 * 4000, 64 * 4000, 64 * 86400 * 30, 32])])
        elif r < 0.8:
            # the same pulls at other moments
            sc = [o for o in sc if o[0] != "adv"]
            for _ in range(rng.choice([0, 2, len(sc)])):
                sc.insert(rng.randint(0, len(sc)), ["adv", rng.choice([1, 16, 31, 32, 33, 64, 128, 64 * 5000])])
        else:
            rng.shuffle(sc)
        s["script"] = sc
        yield s


class Term:
    """One terminal line history; only flushed text is visible."""

    def __init__(self):
        self.pending = []
        self.rows = [""]
        self.col = 0
        self.updates = []      # visible line after each flush

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        self.pending.append(s)
        return len(s)

    def flush(self):
        for ch in "".join(self.pending):
            if ch == "\r":
                self.col = 0
            elif ch == "\n":
                self.rows.append("")
                self.col = 0
            else:
                r = self.rows[-1].ljust(self.col)
                self.rows[-1] = r[:self.col] + ch + r[self.col + 1:]
                self.col += 1
        if self.pending:
            self.updates.append(self.rows[-1])
        self.pending = []

    def isatty(self):
        return True


METER = re.compile(r"(?:\|(?P<bar>[#-]*)\| (?P<n>\d+)/(?P<total>\d+) +(?P<pct>\d+)% \[elapsed: (?P<el>[-\d:]+) left: (?P<left>[-\d:?]+), +(?P<rate>\S+) iters/sec\]"
                   r"|(?P<n2>\d+) \[elapsed: (?P<el2>[-\d:]+), +(?P<rate2>\S+) iters/sec\])")


def interval(t):
    t = int(t)
    h, m, s = t // 3600, t // 60 % 60, t % 60
    return "%d:%02d:%02d" % (h, m, s) if h else "%02d:%02d" % (m, s)


def seconds(s):
    v = 0
    for p in s.split(":"):
        v = v * 60 + int(p)
    return v


class Boom(Exception):
    pass


def execute(scn, w):
    T = C["tqdm"]
    clk = w.clock
    Q = float(scn.get("q", 64))
    if Q not in (4, 64, 1 << 12, 1 << 20):
        raise Invalid("unit")
    other = {"stdout": [], "stderr": []}
    bars = []
    outer = None

    class Bar:
        pass

    def make(i, b):
        o = Bar()
        o.b, o.term = b, Term()
        o.pulled = o.got = 0
        o.state = "new"
        o.finished = False      # the source saw its end
        o.items = [object() for _ in range(b["n"])]
        o.start = None
        o.last_n, o.last_t = 0, None
        o.clean = True
        o.shown = 0
        src = b["src"]
        if src not in SRC or b["n"] < 0 or (b["fail"] is not None and src not in ("gen", "iter")) or not b["dt"]:
            raise Invalid("bar")
        if b["fail"] is not None and not 0 <= b["fail"] <= b["n"]:
            raise Invalid("fail")
        o.exc = Boom("source")

        def step():
            dt = b["dt"][o.pulled % len(b["dt"])]
            o.pulled += 1
            clk.advance(dt / Q)

        def gen():
            try:
                for k in range(b["n"]):
                    if b["fail"] == k:
                        raise o.exc
                    step()
                    yield o.items[k]
                if b["fail"] == b["n"]:
                    raise o.exc
            finally:
                o.finished = True

        class It:
            def __init__(self):
                self.k = 0

            def __iter__(self):
                return self

            def __next__(self):
                if b["fail"] == self.k:
                    self.k = 10 ** 9
                    raise o.exc
                if self.k >= b["n"]:
                    raise StopIteration
                step()
                self.k += 1
                return o.items[self.k - 1]

        class Sized:
            def __iter__(self):
                return gen()

            def __len__(self):
                if b["src"] == "badlen":
                    raise TypeError("no length")
                return b["fake"]

        o.length = None
        if src == "list":
            it, o.length = list(o.items), b["n"]
        elif src == "dict":
            it, o.length = dict.fromkeys(o.items), b["n"]
        elif src == "gen":
            it = gen()
        elif src == "iter":
            it = It()
        elif src == "range":
            it, o.length = None, b["n"]
            o.items = list(range(b["n"]))
        else:
            it = Sized()
            if src == "len":
                o.length = b["fake"]
        o.lazy = src in ("gen", "iter", "len", "badlen")
        kw = {}
        if b["total"] is not None:
            kw["total"] = b["total"]
        if b["desc"]:
            kw["desc"] = b["desc"]
        if not b["leave"]:
            kw["leave"] = False
            w.probe("no-leave")
        if not b["err"]:
            kw["file"] = o.term
        else:
            w.probe("stderr")
        if b["mi"] is not None:
            kw["mininterval"] = b["mi"] / Q
        if b["it"] is not None:
            kw["miniters"] = b["it"]
        o.mi = 0.5 if b["mi"] is None else b["mi"] / Q
        o.it = 1 if b["it"] is None else b["it"]
        o.total = b["total"] if b["total"] is not None else o.length
        if o.total is None:
            w.probe("no-total")
        elif o.total != b["n"]:
            w.probe("wrong-total")
        if src == "range":
            w.probe("trange")
            bar = w.must("trange", T.trange, b["n"], **kw)
        else:
            bar = w.must("tqdm", T.tqdm, it, **kw)
        o.bar = w.must("iter", iter, bar)
        del it, bar
        expect(o.pulled == 0, "not-lazy", "items requested before the consumer asked")
        return o

    def tap(stream, s):
        for o in bars:
            if o.b["err"] and stream == "stderr":
                o.term.write(s)
                return
        other[stream].append(s)

    patch.OUT.tap = patch.ERRS.tap = tap
    flush = patch.ERRS.flush
    patch.ERRS.flush = lambda: [o.term.flush() for o in bars if o.b["err"]]

    def show(o, line, n, elapsed, cls="wrong-display"):
        """One visible line: count n, after elapsed seconds (None: unknown)."""
        text = line.rstrip(" ")
        pre = o.b["desc"] + ": " if o.b["desc"] else ""
        expect(text.startswith(pre), cls, "%r lacks the description" % text)
        m = METER.fullmatch(text[len(pre):])
        expect(m is not None, cls, "%r" % text)
        g = m.groupdict()
        el, rate = (g["el"], g["rate"]) if g["n"] else (g["el2"], g["rate2"])
        expect(int(g["n"] or g["n2"]) == n, cls, "%r after %d items" % (text, n))
        if o.total is not None and n <= o.total and o.total:
            expect(g["total"] is not None and int(g["total"]) == o.total, cls, "%r: total is %d" % (text, o.total))
            expect(g["bar"] in [("#" * k).ljust(10, "-") for k in (int(n / o.total * 10), n * 10 // o.total)], cls, "%r: bar" % text)
            expect(int(g["pct"]) in (int(n / o.total * 100), n * 100 // o.total), cls, "%r: percentage" % text)
        else:
            expect(g["total"] is None, cls, "%r: total unknown or exceeded" % text)
        if elapsed is None:
            return
        expect(el == interval(elapsed), cls, "%r: elapsed is %s" % (text, interval(elapsed)))
        if elapsed >= 3600:
            w.probe("hours")
        if elapsed:
            expect(abs(float(rate) - n / elapsed) <= 0.006, cls, "%r: rate is %g" % (text, n / elapsed))
        if g["left"] is not None and n:
            expect(g["left"] != "?" and abs(seconds(g["left"]) - int(elapsed / n * (o.total - n))) <= 1, cls, "%r: left %s" % (text, interval(elapsed / n * (o.total - n))))

    def pull(o):
        if o.state == "new":
            o.start = o.last_t = clk.now
            o.state = "running"
            first = True
        else:
            first = False
        now = clk.now
        live = o.state == "running"
        before = len(o.term.updates)
        due = live and not first and o.got - o.last_n >= o.it and now - o.last_t >= o.mi
        pulled = o.pulled
        outer[0] = o
        st, v = w.call(next, o.bar)
        if o.lazy:
            expect(o.pulled - pulled <= 1, "not-lazy", "%d items requested for one" % (o.pulled - pulled))
        ended = st == "exc"
        new = o.term.updates[before:]
        if not live:
            expect(ended and isinstance(v, StopIteration), "wrong-items", "a finished bar gave %r" % (v,))
            expect(not new and not o.term.pending, "wrong-display", "written after the end: %r" % new)
            return
        if first:
            expect(len(new) >= 1, "wrong-display", "no line at the start")
            show(o, new[0], 0, None)
            new = new[1:]
        b = o.b
        stop = b["n"] if b["fail"] is None else b["fail"]
        if not ended:
            expect(o.got < stop and v is o.items[o.got], "wrong-items", "item %d is %r" % (o.got, v))
        else:
            expect(o.got == stop, "wrong-items", "%r after %d of %d items" % (v, o.got, stop))
            if b["fail"] is not None:
                expect(v is o.exc, "wrong-error", "%r instead of the source's error" % (v,))
                w.probe("source-error")
            else:
                expect(isinstance(v, StopIteration), "wrong-error", repr(v))
        n = o.got
        if due is True and o.clean:
            expect(len(new) >= 1, "missed-update", "%d items, %g s since the last update at %d" % (n, now - o.last_t, o.last_n))
        if new and (due if o.clean else not first and not ended):
            show(o, new[0], n, now - o.start if o.clean else None)
            w.probe("update")
            if len(new[0].rstrip()) < len(new[0]):
                w.probe("shrunk-line")
            o.last_n, o.last_t = n, now
            rest = new[1:]
        else:
            rest = new
        if not ended:
            expect(not rest, "update-too-early", "%r: %d items, %g s since the last update at %d" % (rest, n, now - o.last_t, o.last_n))
            o.got += 1
            return
        o.state = "done"
        if b["fail"] is not None:
            return
        end(o, clk.now)

    def end(o, now):
        t, b = o.term, o.b
        t.flush()
        if b["leave"]:
            expect(len(t.rows) == 2 and t.rows[1] == "" and t.col == 0, "wrong-display", "at the end: %r" % t.rows)
            known = o.clean and b["n"]
            show(o, t.rows[0], b["n"], (o.last_t if o.last_n == b["n"] else now) - o.start if known else None)
        else:
            expect(len(t.rows) == 1 and t.rows[0].strip() == "" and t.col == 0, "wrong-display", "not erased: %r" % t.rows)

    outer = [None]
    for i, b in enumerate(scn["bars"]):
        bars.append(make(i, b))
    if len(bars) > 1:
        w.probe("several")

    def close(o):
        if o.state == "done":
            return
        w.must("close", o.bar.close)
        st, v = w.call(next, o.bar)
        expect(st == "exc" and isinstance(v, StopIteration), "wrong-items", "a closed bar gave %r" % (v,))
        v = None
        o.bar = iter(())
        if o.state == "running":
            if o.b["src"] in ("gen", "len", "badlen") and o.got:
                expect(o.finished, "source-not-closed", "the source generator is still open")
            w.probe("closed")
        o.state = "done"

    for op in scn["script"]:
        if op[0] == "adv":
            if op[1] < 0:
                raise Invalid("adv")
            clk.advance(op[1] / Q)
            if op[1] == 0:
                w.probe("stall")
        elif op[0] == "jump":
            clk.jump(op[1] / Q)
            w.fire("clock:back" if op[1] < 0 else "clock:jump")
            w.probe("backwards" if op[1] < 0 else "jump")
            for o in bars:
                if o.state == "running":
                    o.clean = False
        else:
            if op[1] >= len(bars):
                continue
            if op[0] == "next":
                pull(bars[op[1]])
            else:
                close(bars[op[1]])
    for o in bars:
        if scn["drain"]:
            for _ in range(o.b["n"] + 3):
                pull(o)
            expect(o.state == "done", "wrong-items", "does not end")
        else:
            close(o)
    for k, v in other.items():
        expect(not v, "stray-output", "%s: %r" % (k, v))
    w.ev("terms", [o.term.rows for o in bars])
