"""P files: failed writes leave no trace and a damaged file never misleads."""
from .. import gens
from ..core import Invalid, ProcessKilled, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import pfcommon as pc

ID = "C04"
BUDGET = {"quick": (1250, 75), "thorough": (20000, 420)}
RULE = ("Seeded writer histories with rejected entities and repeated closes, with or without an older file at the path; then the same with write/open/close errors, "
        "full disks and a process crash inside close, and the finished file cut at sampled and boundary lengths; everything is then read in a fresh process.")
REAL = ["coral.pf", "coral.bbox", "coral.coord.haversine", "Python io buffering"]
STUB = ["disk and directory tree (dst.fs); crash = process death, kernel-accepted writes survive, user buffers are lost"]
ASSUME = ["coordinates are finite and within a few turns of the globe",
          "a file is cut at a byte count; bytes are not altered otherwise"]
PROBES = ["crash", "close-error", "rejected", "old-data", "retry-closed", "cut", "cut-readable", "cut-error"]
NOSHRINK = ("size",)


def generate(rng, tier):
    scn = {"bufsize": gens.bufsize(rng), "size": rng.choice([1, 2, 4, 8]), "old": None, "ops": [], "faults": [], "capacity": None, "cuts": []}
    if rng.random() < 0.4:
        scn["old"] = pc.gen_ents(rng)
    for e in pc.gen_ents(rng, rng.random() < 0.1):
        if rng.random() < 0.3:
            b = {"name": e["name"], "polys": [[list(p) for p in q] for q in e["polys"]]}
            k = rng.randrange(6)
            if k == 0:
                b["name"] = rng.choice(["S\u00e3o", "nul\0name", None, 7])
            elif k == 1:
                b["polys"] = []
            elif k == 2:
                rng.choice(b["polys"]).append([rng.choice(["x", None]), 1])
            elif k == 3:
                rng.choice(b["polys"])[-1] = [1.5]
            elif k == 4:
                b["polys"].append([[1, None]])
            else:
                b["polys"] = [[]]
            scn["ops"].append(["write", b])
            if rng.random() < 0.6:
                scn["ops"].append(["write", e])
        else:
            scn["ops"].append(["write", e])
    scn["ops"].append(["close"])
    if rng.random() < 0.2:
        scn["ops"].append(["close"])
    return scn


def variants(rng, scn, res, tier):
    n = res["hint"]["size"]
    s = dict(scn)
    s["cuts"] = sorted(set(rng.sample(range(n), min(n, 24)) + list(range(min(n, 12)))))
    yield s
    for i in range(7 if tier == "quick" else 14):
        s = dict(scn)
        r = rng.random()
        if r < 0.4:
            c = gens.crash(rng, res, ("new",))
            s["faults"] = [c] if c else []
        elif r < 0.8:
            s["faults"] = gens.faults(rng, res, ("new",), persist=0.2)
            s["ops"] = s["ops"] + [["close"]] * rng.choice([0, 1, 1, 3])
        elif r < 0.9:
            s["capacity"] = rng.randint(0, max(1, n))
            s["ops"] = s["ops"] + [["free"], ["close"]]
        else:
            s["cuts"] = sorted(set(rng.sample(range(n), min(n, 40))))
        if rng.random() < 0.4:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def read_back(w, names):
    pf = C["pf"]
    st, rd = w.call(pf.Reader, "f.p", budget=200000)
    if st == "exc":
        return None
    st, n = w.call(len, rd)
    if st == "exc" or n > 1000:
        raise Violation("wrong-length", "length %r" % (n,))
    got = []
    for i in range(n):
        st, v = w.call(rd.read, i, budget=200000)
        got.append(v if st == "ok" else None)
    byname = {}
    for m in names:
        st, v = w.call(rd.get, m, budget=200000)
        if st == "ok":
            byname[m] = v
    w.call(rd.close)
    return got, byname


def against(back, ents, size, exact):
    got, byname = back
    if len(got) != len(ents) if exact else len(got) > len(ents):
        return "%d entities, %d written" % (len(got), len(ents))
    for i, v in enumerate(got):
        if v is None:
            if exact:
                return "entity %d cannot be read" % i
            continue
        why = pc.same(ents[i], size, v)
        if why:
            return "entity %d: %s" % (i, why)
    for m, v in byname.items():
        e = [e for e in ents if e["name"] == m]
        if not e:
            return "name %r was not written" % m
        why = pc.same(e[0], size, v)
        if why:
            return "name %r: %s" % (m, why)
    if exact and set(byname) != {e["name"] for e in ents}:
        return "names %s" % sorted(byname)
    return None


def execute(scn, w):
    pf = C["pf"]
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    size = scn["size"]
    if scn["old"]:
        pc.check_ents(scn["old"])
        fs.set_phase("old")
        wr = w.must("writer", pf.Writer, "f.p", size)
        for e in scn["old"]:
            w.must("write", wr.write, e["name"], [[tuple(p) for p in q] for q in e["polys"]])
        w.must("close", wr.close)
        w.probe("old-data")
    fs.set_phase("new")
    if scn["capacity"] is not None:
        fs.capacity = fs.used() + scn["capacity"] - len(fs.peek("f.p") or b"")
    acked, names = [], set()
    closed, crashed, errs, failed = None, False, None, False
    try:
        wr = w.must("writer", pf.Writer, "f.p", size)
        for op in scn["ops"]:
            before = gens.errors_fired(w)
            if op[0] == "free":
                fs.capacity = None
            elif op[0] == "write":
                e = op[1]
                if e["name"] in [a["name"] for a in acked]:
                    continue
                ok = pc.valid_ent(e)
                polys = [[tuple(p) for p in q] for q in e["polys"]]
                st, v = w.call(wr.write, e["name"], polys)
                gens.wipe(polys)
                if isinstance(e["name"], str):
                    names.add(e["name"])
                if st == "ok":
                    if not ok and not (isinstance(e["name"], str) and e["polys"] and any(e["polys"]) and not
                                       any(len(p) != 2 or not all(isinstance(c, (int, float)) for c in p) for q in e["polys"] for p in q)):
                        raise Violation("bad-entity-accepted", repr(e))
                    acked.append(e)
                else:
                    if ok:
                        raise Violation("write-refused", "%r: %r" % (e, v))
                    w.probe("rejected")
            elif op[0] == "close":
                st, v = w.call(wr.close)
                if st == "ok":
                    closed, errs = True, v
                    if failed:
                        w.probe("retry-closed")
                else:
                    failed = True
                    closed = False
                    w.probe("close-error")
                    if gens.errors_fired(w) == before:
                        raise Violation("close-refused", repr(v))
    except ProcessKilled:
        crashed = True
        w.probe("crash")
    wr = None
    fs.reboot()
    fs.capacity = None
    fs.faults = []
    fs.set_phase("check")
    data = fs.peek("f.p")
    w.hint = {"size": max(1, len(data or b""))}
    allnames = sorted(names | {e["name"] for e in scn["old"] or ()})
    back = read_back(w, allnames)
    if closed and not crashed:
        expect(back is not None, "lost-after-close", "close returned normally but the file cannot be opened")
        why = against(back, acked, size, True)
        expect(why is None, "wrong-after-close", why)
        pc.check_errors(errs, acked, back[0])
        for c in scn["cuts"]:
            if c >= len(data):
                continue
            fs.poke("f.p", data[:c])
            w.probe("cut")
            back = read_back(w, allnames)
            if back is None:
                w.probe("cut-error")
                continue
            w.probe("cut-readable")
            why = against(back, acked, size, False)
            expect(why is None, "wrong-when-cut", "cut at byte %d of %d: %s" % (c, len(data), why))
        return
    if back is None:
        return
    why = against(back, acked, size, False)
    if why is not None and scn["old"]:
        if against(back, scn["old"], size, False) is None:
            return
    expect(why is None, "wrong-after-crash" if crashed else "wrong-after-error", why)
