"""Vertex buffer: bounded double-ended queue."""
import collections

from ..core import Invalid, Violation, expect
from ..engine import C

ID = "C17"
BUDGET = {"quick": (6250, 75), "thorough": (60000, 300)}
RULE = ("Seeded histories of push, pop, shift, peek, emptiness, fullness and printing by several producers and consumers over several buffers of power-of-two capacities, with phases that fill, drain and rotate "
        "the buffers through every start position; calls on full and empty buffers; items whose conversion to text fails once while the buffer is printed.")
REAL = ["coral.coord.Buffer"]
STUB = ["producers and consumers (seeded scheduler, pre-emption between operations)", "items with injected conversion errors"]
ASSUME = ["one operation at a time per buffer: the buffer takes no locks and promises none"]
PROBES = ["full-refused", "empty-refused", "wrapped", "text-error", "bad-capacity", "all-offsets", "falsy-item"]


class TextError(Exception):
    pass


class Item:
    """An item with an identity of its own; its text can fail once."""
    fail = None

    def __init__(self, n):
        self.n = n

    def __str__(self):
        if Item.fail == self.n:
            Item.fail = None
            raise TextError()
        return "i%d" % self.n
    __repr__ = __str__


def generate(rng, tier):
    nb = rng.choice([1, 1, 2, 3])
    caps = [rng.choice([1, 1, 2, 2, 4, 4, 8, 16, 64] + [32, 128, 256, 1024] * (rng.random() < 0.1)) for _ in range(nb)]
    clients = []
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        while len(ops) < rng.choice([10, 30, 120]):
            b = rng.randrange(nb)
            r = rng.random()
            if r < 0.1:
                ops.append([b, "fill"])
            elif r < 0.18:
                ops.append([b, rng.choice(["drain", "unwind"])])
            elif r < 0.3:
                ops.append([b, "rotate", rng.choice([1, 2, 3, 5, 2 * caps[b] + 1])])
            elif r < 0.33:
                ops.append([b, "printfail"])
            elif r < 0.35:
                ops.append([rng.choice([3, 5, 6, 7, 9, 12, 100]), "badcap"])
            elif r < 0.38:
                ops.append([b, "shared"])
            elif r < 0.65:
                ops.append([b, "push", rng.choice(["item", "item", "pair", "none", "zero", "same"])])
            else:
                ops.append([b, rng.choice(["pop", "shift", "peek", "peek", "test", "str"])])
        clients.append(ops)
    return {"caps": caps, "clients": clients, "order": []}


def variants(rng, scn, res, tier):
    if len(scn["clients"]) < 2:
        return
    for _ in range(2 if tier == "quick" else 5):
        s = dict(scn)
        s["order"] = [rng.randrange(8) for _ in range(rng.choice([5, 20, 80]))]
        yield s


def execute(scn, w):
    co = C["coord"]
    caps = scn["caps"]
    if not caps or any(c < 1 or c & (c - 1) for c in caps):
        raise Invalid("capacity")
    bufs = [w.must("Buffer", co.Buffer, c) for c in caps]
    model = [collections.deque() for _ in caps]
    # the buffer's own start position is its business; this one counts what left at the front
    gone = [set() for _ in caps]
    shifts = [0] * len(caps)
    n = [0]
    last = [None]

    def item(kind):
        n[0] += 1
        if kind == "pair":
            r = (n[0], -n[0])
        elif kind == "none":
            r = None
        elif kind == "zero":
            r = 0
        elif kind == "same" and last[0] is not None:
            r = last[0]
        else:
            r = Item(n[0])
        if not r:
            w.probe("falsy-item")
        last[0] = r
        return r

    def test(i):
        b, m = bufs[i], model[i]
        e = w.must("isempty", b.isempty)
        f = w.must("isfull", b.isfull)
        expect(bool(e) == (not m), "isempty", "%r with %d items" % (e, len(m)))
        expect(bool(f) == (len(m) == caps[i]), "isfull", "%r with %d of %d items" % (f, len(m), caps[i]))

    def text(i):
        s = w.must("str", str, bufs[i])
        want = "<%s>" % " ".join(map(str, model[i]))
        expect(s == want, "printed-content", lambda: "%s instead of %s" % (s, want))

    def refuse(i, what, fn, *a):
        r = w.call(fn, *a)
        expect(r[0] == "exc", what + "-accepted", lambda: "%s on a buffer with %d of %d items returned %r" % (what, len(model[i]), caps[i], r[1]))
        w.probe("full-refused" if what == "push" else "empty-refused")
        test(i)
        text(i)

    def push(i, o):
        if len(model[i]) == caps[i]:
            refuse(i, "push", bufs[i].push, o)
        else:
            w.must("push", bufs[i].push, o)
            model[i].append(o)
            test(i)

    def take(i, what):
        b, m = bufs[i], model[i]
        fn = getattr(b, what)
        if not m:
            return refuse(i, what, fn)
        got = w.must(what, fn)
        if what == "shift":
            want = m.popleft()
            shifts[i] += 1
            gone[i].add(shifts[i] % (2 * caps[i]))
            if shifts[i] >= 2 * caps[i]:
                w.probe("wrapped")
            if len(gone[i]) == 2 * caps[i]:
                w.probe("all-offsets")
        elif what == "pop":
            want = m.pop()
        else:
            want = m[-1]
        expect(got is want or (not isinstance(want, Item) and got == want and type(got) is type(want)), what + "-returned", lambda: "%s returned %s instead of %s" % (what, got, want))
        test(i)

    def do(op):
        if op[1] == "badcap":
            if op[0] & (op[0] - 1) == 0:
                raise Invalid("capacity")
            r = w.call(co.Buffer, op[0])
            expect(r[0] == "exc", "bad-capacity-accepted", str(op[0]))
            w.probe("bad-capacity")
            return
        i = op[0] % len(bufs)
        b, m = bufs[i], model[i]
        k = op[1]
        if k == "push":
            push(i, item(op[2]))
        elif k in ("pop", "shift", "peek"):
            take(i, k)
        elif k == "test":
            test(i)
        elif k == "str":
            text(i)
        elif k == "fill":
            while len(m) < caps[i]:
                push(i, item("item"))
            push(i, item("item"))
            text(i)
        elif k in ("drain", "unwind"):
            while m:
                take(i, "shift" if k == "drain" else "pop")
            take(i, "peek")
            take(i, "shift" if k == "drain" else "pop")
        elif k == "rotate":
            for _ in range(min(int(op[2]), 300)):
                if not m:
                    push(i, item("item"))
                take(i, "shift")
                push(i, item("item"))
        elif k == "printfail":
            named = [x for x in m if isinstance(x, Item)]
            if named:
                Item.fail = named[-1].n
                r = w.call(str, b)
                hit, Item.fail = Item.fail is None, None
                if hit:
                    w.fire("text-error")
                    w.probe("text-error")
                    expect(r[0] == "exc", "error-swallowed", lambda: repr(r[1]))
            test(i)
            text(i)
        elif k == "shared":
            for j in range(len(bufs)):
                test(j)
                text(j)
        else:
            raise Invalid("op")

    left = [list(c) for c in scn["clients"]]
    order = list(scn["order"])
    while any(left):
        ready = [c for c in left if c]
        c = ready[(order.pop(0) if order else 0) % len(ready)]
        do(c.pop(0))
    for i in range(len(bufs)):
        test(i)
        text(i)
        while model[i]:
            take(i, "shift")
        text(i)
