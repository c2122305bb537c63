"""RangeGrid: every read returns what was written, in any read order."""
from .. import gens
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import rgcommon as rc

ID = "C01"
BUDGET = {"quick": (2250, 75), "thorough": (20000, 420)}
RULE = ("Seeded data sets (all column kinds and sizes, boundary values, empty entities) written through rg.Writer and read by several readers "
        "in a random mix of sequential, by-ID and unknown-ID reads; then the same run with read/seek/open errors and short reads placed inside it.")
REAL = ["coral.rg", "coral.grid", "Python io buffering and text layers"]
STUB = ["disk and directory tree (dst.fs)"]
ASSUME = ["row values are valid for their column, IDs are distinct single-line texts, column names are distinct ASCII texts",
          "after a failed by-ID read the stream may continue at the old position or at that entity"]
PROBES = ["read-error", "retry-ok", "unknown-id", "end-of-stream", "null", "short", "replaced"]


def generate(rng, tier):
    sets = []
    for i in range(rng.choice([1, 1, 2])):
        cols = rc.gen_cols(rng)
        sets.append({"path": ["a", "dir name"][i], "cols": cols, "ents": rc.gen_ents(rng, cols, big=rng.random() < 0.15)})
    if rng.random() < 0.012 and len(sets[0]["cols"]) <= 4 and all(c.get("size", 0) <= 32 for c in sets[0]["cols"]):
        # very many rows or segments in one entity
        cols, e = sets[0]["cols"], rng.choice(sets[0]["ents"])
        rows = [[rc.gen_value(rng, c) for c in cols] for _ in range(rng.choice([257, 513, 1025, 1100, 2100]))]
        e["segs"] = [rows] if rng.random() < 0.6 else [[r] for r in rows] + [[]] * 2200
    readers = [rng.randrange(len(sets)) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([3, 6, 12, 20])):
        r = rng.randrange(len(readers))
        n = len(sets[readers[r]]["ents"])
        k = rng.random()
        if k < 0.5:
            ops.append(["next", r])
        elif k < 0.87:
            ops.append(["id", r, rng.randrange(n), rng.randrange(2)])
        elif k < 0.95:
            ops.append(["unknown", r])
        else:
            ops.append(["reopen", r])
    return {"bufsize": gens.bufsize(rng), "sets": sets, "readers": readers, "ops": ops, "faults": [], "again": rng.choice([0, 0, 1, 2])}


def variants(rng, scn, res, tier):
    for _ in range(7 if tier == "quick" else 14):
        s = dict(scn)
        s["faults"] = gens.faults(rng, res, ("read",), ("read", "seek", "open"), persist=0)
        if not s["faults"]:
            return
        if rng.random() < 0.3:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    rg = C["rg"]
    sets = scn["sets"]
    if len({s["path"] for s in sets}) != len(sets):
        raise Invalid("paths")
    fs.set_phase("write")
    ids = []
    for s in sets:
        rc.check_scn(s)
        row = rc.make_row(s["cols"])
        wr = w.must("writer", rg.Writer, s["path"], row)
        mine = []
        for e in s["ents"]:
            if not all(rc.valid(s["cols"], r) for seg in e["segs"] for r in seg):
                raise Invalid("row")
            eid = e["id"] if e["id"] is not None else len(mine)
            if str(eid) in mine or "\n" in str(eid) or "\r" in str(eid):
                raise Invalid("id")
            mine.append(str(eid))
            segs = [[tuple(r) for r in seg] for seg in e["segs"]]
            if e["id"] is None:
                w.must("write", wr.write, segs)
            else:
                w.must("write", wr.write, segs, e["id"])
            gens.wipe(segs)
        w.must("close", wr.close)
        ids.append(mine)
    fs.set_phase("read")
    slots = [None] * len(scn["readers"])
    curs = [None] * len(slots)     # possible stream positions
    cls = {}

    def attempt(fn, *a):
        before = gens.errors_fired(w)
        st, v = w.call(fn, *a)
        if st == "exc" and gens.errors_fired(w) > before:
            w.probe("read-error")
            return "fault", v
        return st, v

    def entity(r, got, cand, what):
        s = sets[scn["readers"][r]]
        why, match = None, set()
        for i in cand:
            if i < len(s["ents"]):
                x = rc.same(s["cols"], s["ents"][i]["segs"], got)
                if x is None:
                    match.add(i)
                else:
                    why = x
        if match:
            # what was returned belongs to the caller
            gens.wipe(got)
            return match
        raise Violation("wrong-entity", "%s returned something other than entity %s: %s" % (what, sorted(cand), why))

    for op in scn["ops"]:
        r = op[1]
        if r >= len(slots):
            continue
        if scn["readers"][r] >= len(sets):
            raise Invalid("reader")
        s = sets[scn["readers"][r]]
        mine = ids[scn["readers"][r]]
        n = len(mine)
        if slots[r] is None or op[0] == "reopen":
            st, v = attempt(rg.Reader, s["path"])
            if st == "exc":
                raise Violation("open-failed", repr(v))
            if st == "fault":
                slots[r] = None
                continue
            slots[r], curs[r] = v, {0}
            if op[0] == "reopen":
                continue
        rd = slots[r]
        if op[0] == "next":
            st, v = attempt(rd.read)
            if st == "ok":
                curs[r] = {i + 1 for i in entity(r, v, curs[r], "sequential read")}
            elif st == "exc":
                if not any(c >= n for c in curs[r]):
                    raise Violation("read-failed", "sequential read at %s of %d: %r" % (sorted(curs[r]), n, v))
                curs[r] = {c for c in curs[r] if c >= n}
                w.probe("end-of-stream")
        elif op[0] == "id":
            k = op[2]
            if k >= n:
                continue
            key = mine[k]
            if op[3] and key.isdigit() and key == str(int(key)):
                key = int(key)
            st, v = attempt(rd.read, key)
            if st == "ok":
                entity(r, v, {k}, "read(%r)" % (key,))
                curs[r] = {k + 1}
            elif st == "fault":
                curs[r] = curs[r] | {k}
            else:
                raise Violation("read-failed", "read(%r): %r" % (key, v))
        elif op[0] == "unknown":
            st, v = attempt(rd.read, "no such id")
            w.probe("unknown-id")
            if st == "ok":
                raise Violation("unknown-id-found", repr(v)[:200])
            if st == "exc" and not isinstance(v, KeyError):
                raise Violation("unknown-id-error", repr(v))
    fs.set_phase("final")
    if any(c["null"] for s in sets for c in s["cols"]):
        w.probe("null")
    for k in w.fired:
        if k.endswith("short"):
            w.probe("short")
    hadfault = bool(w.fired)
    # faults are over: every reader that is open, and a fresh one, must be right about everything
    for r in range(len(slots)):
        rd = slots[r]
        s = sets[scn["readers"][r]] if scn["readers"][r] < len(sets) else None
        if rd is None or s is None:
            continue
        mine = ids[scn["readers"][r]]
        if max(curs[r]) < len(mine):
            entity(r, w.must("read", rd.read), curs[r], "sequential read")
            if hadfault:
                w.probe("retry-ok")
        for k, key in list(enumerate(mine))[::-1]:
            entity(r, w.must("read-id", rd.read, key), {k}, "read(%r)" % key)
        w.must("reader-close", rd.close)
    for i, s in enumerate(sets):
        rd = w.must("open", rg.Reader, s["path"])
        for k in range(len(ids[i])):
            got = w.must("read", rd.read)
            why = rc.same(s["cols"], s["ents"][k]["segs"], got)
            expect(why is None, "wrong-entity", "fresh reader, entity %d: %s" % (k, why))
        st, v = w.call(rd.read)
        expect(st == "exc", "read-past-end", "a read after the last entity returned %r" % (v,))
        w.must("reader-close", rd.close)
    if scn.get("again"):
        # another data set in the place of the first, of the same size: the contents of the entities turned round
        fs.set_phase("again")
        w.probe("replaced")
        s = sets[0]
        turned = [[list(map(tuple, seg))[::-1] for seg in e["segs"]] for e in s["ents"]]
        if scn["again"] == 2:
            turned = turned[::-1]
        wr = w.must("writer", rg.Writer, s["path"], rc.make_row(s["cols"]))
        for key, segs in zip(ids[0], turned):
            w.must("write", wr.write, [list(seg) for seg in segs], key)
        w.must("close", wr.close)
        rd = w.must("open", rg.Reader, s["path"])
        for key, segs in zip(ids[0], turned):
            why = rc.same(s["cols"], segs, w.must("read-id", rd.read, key))
            expect(why is None, "wrong-entity", "after replacing the data set, read(%r): %s" % (key, why))
        w.must("reader-close", rd.close)
