"""Table files: faithful round trip, each value under its own column."""
import collections

from .. import gens
from ..core import Invalid, ProcessKilled, Violation, expect
from ..engine import C
from ..fs import SimFS

ID = "C13"
BUDGET = {"quick": (5500, 75), "thorough": (50000, 420)}
RULE = ("Seeded tables and separators, written with all or some columns in any order, with or without an older file, decorated with comments and blank lines, read with all or some columns in any "
        "order; then with open/read/write/close errors, full disks, short transfers, a process crash at a sampled system call, and files cut at sampled lengths.")
REAL = ["coral.table (readfile, writefile)", "codecs stream reader", "Python io buffering"]
STUB = ["disk (dst.fs); crash = process death, kernel-accepted writes survive, user buffers are lost"]
ASSUME = ["values are free of the separator, the comment mark, line breaks (of any script) and surrounding blanks, no row is entirely blank, column names are identifiers",
          "the separator contains no comment mark or line break"]
PROBES = ["write-error", "read-error", "crash", "cut", "old", "reordered-write", "reordered-read", "comment", "blank-sep", "empty-ends", "empty-file", "partial-last-row", "lone-surrogate"]
SEPS = [",", ",", ";", "\t", "|", " ", "::", " , "]
COMMS = ["#", "#", "%", "//"]
KEYS = ["id", "name", "uf", "pop", "x1", "Area", "a_b"]


def generate(rng, tier):
    sep, comm = rng.choice(SEPS), rng.choice(COMMS)
    nk = rng.choice([1, 2, 3, 3, 5])
    keys = rng.sample(KEYS, nk)
    wk = rng.sample(keys, rng.randint(1, nk)) if rng.random() < 0.6 else None
    have = wk or keys
    alpha = [c for c in "abcXYZ019-.'\"\\$&()\u00e3\u00e9\u4e2d\U0001f30d ;|:,#%/" if c not in sep and c not in comm]

    def value():
        return "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 3, 8, 40]))).strip()

    def table(n):
        rows = []
        for _ in range(n):
            r = [value() for _ in range(nk)]
            if not "".join(r[keys.index(k)] for k in have):
                r[keys.index(rng.choice(have))] = "v"
            rows.append(r)
        return rows
    n = rng.choice([1, 1, 2, 3, 6, 20]) if rng.random() < 0.98 else rng.choice([130, 400])
    reads = [None] + [rng.sample(have, rng.randint(1, len(have))) for _ in range(rng.choice([0, 1, 2]))]
    deco = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 4])):
            deco.append([rng.randint(0, n + 1), rng.choice(["blank", "comment", "spaces", "trail", "indented"])])
    return {"bufsize": gens.bufsize(rng), "sep": sep, "comm": comm, "keys": keys, "rows": table(n), "wkeys": wk, "reads": reads, "old": table(rng.choice([1, 4])) if rng.random() < 0.3 else None,
            "deco": deco, "lone": [rng.randrange(n), rng.randrange(nk)] if rng.random() < 0.05 else None, "cuts": [], "faults": [], "capacity": None}


def variants(rng, scn, res, tier):
    n = res["hint"] or 1
    for _ in range(4 if tier == "quick" else 8):
        s = dict(scn)
        r = rng.random()
        if r < 0.2:
            c = gens.crash(rng, res, ("write",))
            s["faults"] = [c] if c else []
        elif r < 0.5:
            s["faults"] = gens.faults(rng, res, ("write",), persist=0)
        elif r < 0.75:
            s["faults"] = gens.faults(rng, res, ("read",), persist=0)
        elif r < 0.85:
            s["capacity"] = rng.randint(0, n)
        else:
            s["cuts"] = sorted({0} | {rng.randrange(n + 1) for _ in range(15)})
        if rng.random() < 0.5:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def check_table(keys, rows, sep, comm):
    if not keys or len(set(keys)) != len(keys) or any(k not in KEYS for k in keys) or not sep or sep not in SEPS or comm not in COMMS:
        raise Invalid("keys")
    for r in rows:
        if len(r) != len(keys) or not "".join(r).strip():
            raise Invalid("row")
        for v in r:
            if sep in v or comm in v or v != v.strip() or len(v.splitlines()) > 1 or "\n" in v or "\r" in v:
                raise Invalid("value")
        # neighbouring values must not form a separator or a comment mark together with the separator
        line = sep.join(r)
        if line.split(sep) != r or comm in line:
            raise Invalid("value")


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    T = C["table"]
    keys, sep, comm = scn["keys"], scn["sep"], scn["comm"]
    wkeys = scn["wkeys"] or keys
    if any(k not in keys for k in wkeys) or len(set(wkeys)) != len(wkeys) or not scn["rows"]:
        raise Invalid("wkeys")
    for rows in (scn["rows"], scn["old"] or []):
        check_table(keys, rows, sep, comm)
        check_table(wkeys, [[r[keys.index(k)] for k in wkeys] for r in rows], sep, comm)
    Row = collections.namedtuple("Row", keys)

    def write(rows):
        table = [Row(*r) for r in rows]
        kw = {} if scn["wkeys"] is None else {"keys": list(wkeys)}
        if sep != ",":
            kw["sep"] = sep
        r = w.call(T.writefile, "t.csv", table, **kw)
        expect(table == [tuple(x) for x in rows], "argument-changed", "writefile changed the table")
        return r

    def read(want=None, budget=400000):
        kw = {} if want is None else {"keys": list(want)}
        if sep != ",":
            kw["sep"] = sep
        if comm != "#":
            kw["comm"] = comm
        return w.call(T.readfile, "t.csv", budget=budget, **kw)

    def values(got, cols):
        try:
            got = list(got)
            return [tuple(getattr(r, k) for k in cols) for r in got]
        except (AttributeError, TypeError) as e:
            raise Violation("malformed-table", str(e))

    def select(rows, cols):
        return [tuple(r[keys.index(k)] for k in cols) for r in rows]

    def prefix(got, rows):
        """None or what is wrong with got as a cut table of rows."""
        if not got:
            return None
        f = getattr(got[0], "_fields", None)
        expect(f is not None, "malformed-table", repr(got[0]))
        if list(f) != list(wkeys):
            return "columns %r" % (f,)
        want = select(rows, wkeys)
        g = values(got, wkeys)
        if len(g) > len(want):
            return "%d rows of %d" % (len(g), len(want))
        for i in range(len(g) - 1):
            if g[i] != want[i]:
                return "row %d: %r instead of %r" % (i, g[i], want[i])
        if g[-1] != want[len(g) - 1]:
            w.probe("partial-last-row")
        return None

    def complete(rows, cls):
        for want in scn["reads"]:
            cols = want or wkeys
            if any(k not in wkeys for k in cols) or len(set(cols)) != len(cols):
                raise Invalid("reads")
            st, got = read(want)
            expect(st == "ok", cls, "cannot be read: %r" % (got,))
            g = values(got, cols)
            expect(all(tuple(r._fields) == tuple(cols) for r in got), cls, "columns %r instead of %r" % (got and got[0]._fields, cols))
            exp = select(rows, cols)
            expect(g == exp, cls, lambda: "columns %r: %r instead of %r" % (cols, [x for x in g if x not in exp][:2] or len(g), [x for x in exp if x not in g][:2] or len(exp)))
            if want and list(want) != [k for k in wkeys if k in want]:
                w.probe("reordered-read")

    if sep.isspace():
        w.probe("blank-sep")
        if any(r[0] == "" or r[-1] == "" for r in select(scn["rows"], wkeys)):
            w.probe("empty-ends")
    if scn["wkeys"] and list(wkeys) != [k for k in keys if k in wkeys]:
        w.probe("reordered-write")
    fs.set_phase("old")
    if scn["old"]:
        st, v = write(scn["old"])
        expect(st == "ok", "write-failed", repr(v))
        w.probe("old")
    fs.set_phase("write")
    if scn["capacity"] is not None:
        fs.capacity = scn["capacity"]
    before = gens.errors_fired(w)
    st, v, crashed = "none", None, False
    try:
        st, v = write(scn["rows"])
    except ProcessKilled:
        crashed = True
        w.probe("crash")
        fs.reboot()
    fs.set_phase("check")
    fs.capacity = None
    hit = gens.errors_fired(w) > before
    if st == "ok":
        complete(scn["rows"], "lost-or-wrong")
    else:
        if st == "exc":
            expect(hit, "write-failed", repr(v))
            w.probe("write-error")
        if fs.exists("t.csv"):
            st, got = read()
            if st == "ok":
                why = prefix(got, scn["rows"])
                if why and scn["old"] and prefix(got, scn["old"]) is None:
                    why = None
                expect(why is None, "wrong-after-crash" if crashed else "wrong-after-error", str(why))
        fs.set_phase("again")
        fs.pending = {}
        st, v = write(scn["rows"])
        expect(st == "ok", "second-write-failed", repr(v))
        fs.set_phase("check")
        complete(scn["rows"], "lost-or-wrong")
    data = fs.peek("t.csv")
    w.hint = len(data)
    # read errors: raised, and nothing lingers
    fs.set_phase("read")
    for want in scn["reads"]:
        cols = want or wkeys
        for attempt in range(20):
            before = gens.errors_fired(w)
            st, got = read(want)
            hit = gens.errors_fired(w) > before
            if st == "ok":
                exp = select(scn["rows"], cols)
                expect(values(got, cols) == exp, "wrong-read", "%d rows of %d" % (len(got), len(exp)))
                break
            expect(hit, "read-failed", repr(got))
            w.probe("read-error")
        else:
            raise Violation("read-failed", "still failing without faults")
    fs.set_phase("deco")
    if scn["deco"]:
        lines = data.decode("utf-8").split("\n")[:-1]
        for at, kind in sorted(scn["deco"], reverse=True):
            if at < 0 or at > len(lines):
                raise Invalid("deco")
            if kind == "trail":
                # a comment after a header or row; a blank separator would add a column, harmlessly
                if at < len(lines) and not lines[at].endswith(" ") and lines[at] and comm not in lines[at]:
                    lines[at] += ("" if sep.isspace() else " ") + comm + " note"
            else:
                lines.insert(at, {"blank": "", "comment": comm + "x" + sep + "y", "spaces": "   ", "indented": "  " + comm + sep}[kind])
            w.probe("comment")
        fs.poke("t.csv", "\n".join(lines + [""]).encode("utf-8"))
        complete(scn["rows"], "comment-not-ignored")
    if scn.get("lone"):
        # half a character cannot be stored
        fs.set_phase("lone")
        i, j = scn["lone"]
        if i >= len(scn["rows"]) or j >= len(keys):
            raise Invalid("lone")
        bad = [list(r) for r in scn["rows"]]
        bad[i][j] = "a\ud800"
        st, v = write(bad)
        w.probe("lone-surrogate")
        if st == "ok":
            complete(bad, "lost-or-wrong")
    for c in scn["cuts"]:
        if not 0 <= c <= len(data):
            continue
        fs.poke("t.csv", data[:c])
        w.probe("cut")
        if c == 0:
            w.probe("empty-file")
        st, got = read()
        if st == "ok":
            if c == len(data):
                expect(values(got, wkeys) == select(scn["rows"], wkeys), "wrong-read", "complete file")
                continue
            head = data[:c].split(b"\n")[0]
            if b"\n" not in data[:c]:
                expect(not got, "wrong-when-cut", "rows out of nothing: %r" % got[:2])
                continue
            why = prefix(got, scn["rows"])
            expect(why is None, "wrong-when-cut", "cut at %d: %s" % (c, why))
            whole = data[:c].count(b"\n") - 1
            expect(len(got) >= whole, "rows-missing", "cut at %d: %d rows, %d complete in the file" % (c, len(got), whole))
            g = values(got, wkeys)
            expect(g[:whole] == select(scn["rows"], wkeys)[:whole], "wrong-when-cut", "cut at %d" % c)
