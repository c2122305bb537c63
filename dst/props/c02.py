"""RangeGrid: failed writes leave no trace and a crash never yields wrong data."""
from .. import gens
from ..core import Invalid, ProcessKilled, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import rgcommon as rc

ID = "C02"
BUDGET = {"quick": (1625, 75), "thorough": (20000, 420)}
RULE = ("Seeded writer histories (valid entities, entities with a rejected value, repeated close) with or without an older data set at the path; "
        "then the same history with write/seek/open/remove/close errors, full disks, torn writes and a process crash placed inside it, "
        "followed by reading everything in a fresh process.")
REAL = ["coral.rg", "coral.grid", "Python io buffering and text layers"]
STUB = ["disk and directory tree (dst.fs); crash = process death, kernel-accepted writes survive, user buffers are lost"]
ASSUME = ["IDs are distinct single-line texts; old data set and new one are written by coral itself",
          "crash model: process death (no power-loss reordering, the code never promises fsync)"]
PROBES = ["crash", "write-error", "rejected", "old-data", "acked-after-error", "crash-then-readable", "crash-then-error"]


def generate(rng, tier):
    cols = rc.gen_cols(rng)
    big = rng.random() < 0.3
    scn = {"bufsize": gens.bufsize(rng), "cols": cols, "old": None, "ops": [], "faults": [], "capacity": None}
    if rng.random() < 0.55:
        oc = cols if rng.random() < 0.7 else rc.gen_cols(rng)
        oe = rc.gen_ents(rng, oc, big=rng.random() < 0.2)
        scn["old"] = {"cols": oc, "ents": oe}
    for e in rc.gen_ents(rng, cols, big=big):
        r = rng.random()
        if r < 0.25 and any(e["segs"]):
            # one rejected value somewhere in the middle, then perhaps the corrected entity
            b = {"id": e["id"], "segs": [[list(x) for x in s] for s in e["segs"]]}
            seg = rng.choice([s for s in b["segs"] if s] or [[[0] * len(cols)]])
            k = rng.randrange(len(cols))
            row = rng.choice(seg)
            if rng.random() < 0.1:
                # a value too many or too few
                row[k:k + 1] = rng.choice([[], [row[k], row[k]], [row[k], None]])
            else:
                row[k] = rc.gen_bad(rng, cols[k])
            scn["ops"].append(["write", b])
            if rng.random() < 0.5:
                scn["ops"].append(["write", e])
        else:
            scn["ops"].append(["write", e])
    scn["ops"].append(["close"])
    if rng.random() < 0.3:
        scn["ops"].append(["close"])
    return scn


def variants(rng, scn, res, tier):
    for i in range(8 if tier == "quick" else 16):
        s = dict(scn)
        r = rng.random()
        if r < 0.45:
            c = gens.crash(rng, res, ("new",))
            s["faults"] = [c] if c else []
            if rng.random() < 0.25:
                s["faults"] = gens.faults(rng, res, ("new",), kmax=1) + s["faults"]
        elif r < 0.9:
            s["faults"] = gens.faults(rng, res, ("new",), persist=0.25)
            if rng.random() < 0.3:
                s["ops"] = s["ops"] + [["close"]]
        else:
            s["capacity"] = rng.randint(0, max(1, res["hint"]["size"]))
        if rng.random() < 0.3:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def entries(cols, ents):
    out = []
    for e in ents:
        if not all(rc.valid(cols, r) for s in e["segs"] for r in s):
            raise Invalid("row")
        eid = str(e["id"] if e["id"] is not None else len(out))
        if eid in [x[0] for x in out]:
            raise Invalid("id")
        out.append((eid, e["segs"]))
    return out


def write_all(w, cols, ents):
    rg = C["rg"]
    wr = w.must("writer", rg.Writer, "data", rc.make_row(cols))
    for e in ents:
        segs = [[tuple(r) for r in s] for s in e["segs"]]
        w.must("write", wr.write, segs, *([] if e["id"] is None else [e["id"]]))
    w.must("close", wr.close)


def read_back(w, cols, ids):
    """What a fresh reader says: ("error", why, entities before it) or ("all", entities, by-id results)."""
    rg = C["rg"]
    st, rd = w.call(rg.Reader, "data")
    if st == "exc":
        return None
    got = []
    end = False
    for _ in range(400):
        st, v = w.call(rd.read)
        if st == "exc":
            end = isinstance(v, IndexError)
            break
        got.append(v)
    else:
        raise Violation("endless-stream", "sequential reading did not end")
    byid = {}
    for i in ids:
        st, v = w.call(rd.read, i)
        if st == "ok":
            byid[i] = v
    w.call(rd.close)
    return got, end, byid


def execute(scn, w):
    rg = C["rg"]
    rc.check_scn(scn)
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    old = None
    if scn["old"]:
        rc.check_scn(scn["old"])
        fs.set_phase("old")
        old = entries(scn["old"]["cols"], scn["old"]["ents"])
        write_all(w, scn["old"]["cols"], scn["old"]["ents"])
        w.probe("old-data")
    fs.set_phase("new")
    if scn["capacity"] is not None:
        fs.capacity = fs.used() + scn["capacity"]
    start = fs.used()
    cols = scn["cols"]
    row = rc.make_row(cols)
    acked = []
    closed = None        # True: the last close returned normally
    attempted = False
    crashed = False
    failed = False
    seen = []
    try:
        attempted = True
        before = gens.errors_fired(w)
        st, wr = w.call(rg.Writer, "data", row)
        if st == "exc":
            if gens.errors_fired(w) == before:
                raise Violation("writer-refused", repr(wr))
            wr = None
        for op in scn["ops"]:
            if wr is None:
                break
            before = gens.errors_fired(w)
            if op[0] == "write":
                e = op[1]
                if closed is not None:
                    continue
                ok = all(rc.valid(cols, r) for s in e["segs"] for r in s)
                eid = str(e["id"] if e["id"] is not None else len(acked))
                if eid in [a[0] for a in acked]:
                    continue
                segs = [[tuple(r) for r in s] for s in e["segs"]]
                st, v = w.call(wr.write, segs, *([] if e["id"] is None else [e["id"]]))
                gens.wipe(segs)
                seen.append(eid)
                if st == "ok":
                    if not ok:
                        # accepting it is only fine if it then reads back unchanged, which same() decides below
                        w.probe("bad-accepted")
                    acked.append((eid, e["segs"]))
                    if failed:
                        w.probe("acked-after-error")
                else:
                    failed = True
                    if ok:
                        w.probe("write-error")
                        if gens.errors_fired(w) == before:
                            raise Violation("write-refused", "%r: %r" % (e, v))
                    else:
                        w.probe("rejected")
            elif op[0] == "close":
                st, v = w.call(wr.close)
                if st == "ok":
                    closed = True
                elif closed is None:
                    closed = False
                    if gens.errors_fired(w) == before and not failed:
                        raise Violation("close-refused", repr(v))
    except ProcessKilled:
        crashed = True
        w.probe("crash")
    w.hint = {"size": max(1, fs.used() - start)}
    wr = None
    fs.reboot()
    fs.capacity = None
    fs.faults = []
    fs.set_phase("check")
    ids = sorted({a[0] for a in acked} | set(seen) | {o[0] for o in old or ()})
    back = read_back(w, cols, ids)

    def check_against(c, want, exact):
        """None if everything that was returned belongs to this data set."""
        got, end, byid = back
        if len(got) > len(want):
            return "%d entities, %d were written" % (len(got), len(want))
        for i, g in enumerate(got):
            why = rc.same(c, want[i][1], g)
            if why:
                return "entity %d (%s): %s" % (i, want[i][0], why)
        if exact and (len(got) != len(want) or not end):
            return "%d of %d entities readable" % (len(got), len(want))
        for k, g in byid.items():
            m = [x for x in want if x[0] == k]
            if not m:
                return "ID %r exists but its write did not complete" % k
            why = rc.same(c, m[0][1], g)
            if why:
                return "by ID %r: %s" % (k, why)
        if exact and set(byid) != {x[0] for x in want}:
            return "IDs readable: %s, written: %s" % (sorted(byid), [x[0] for x in want])
        return None

    if closed and not crashed:
        if back is None:
            raise Violation("lost-after-close", "close returned normally but the data set cannot be opened")
        why = check_against(cols, acked, True)
        expect(why is None, "wrong-after-close", why)
        return
    if back is None:
        w.probe("crash-then-error")
        return
    w.probe("crash-then-readable")
    why = check_against(cols, acked, False)
    if why is None:
        return
    why2 = "there was none"
    if old is not None:
        why2 = check_against(scn["old"]["cols"], old, False)
        if why2 is None:
            return
    raise Violation("wrong-after-crash" if crashed else "wrong-after-error",
                    "as the new data set: %s; as the old one: %s" % (why, why2))
