"""Shapefiles: each save is a faithful snapshot, whatever happened before."""
import io

from .. import gens
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import shpcommon as sc

ID = "C07"
BUDGET = {"quick": (2750, 75), "thorough": (24000, 420)}
RULE = ("Seeded histories of adding fields, shapes and records to one or several writers, changing the lists handed over, and saving whole sets or single files to paths, "
        "generated names and file objects; then the same with open/write/seek/close/remove errors and full disks, retried; every file saved without error is decoded by an "
        "independent parser and compared with what the writer held.")
REAL = ["coral.shapefile.Writer", "Python io buffering"]
STUB = ["disk and directory tree (dst.fs)", "wall clock", "temporary names"]
ASSUME = ["one shape type per writer (plus null shapes), texts that fit their field without surrounding blanks, numbers that fit their field",
          "a file object that a save failed on is not used again"]
PROBES = ["save-error", "retry", "second-save", "partial", "file-objects", "reused-object", "late-field", "mutated", "two-writers", "kw-record", "generated"]
EXTS = ["shp", "shx", "dbf"]


def generate(rng, tier):
    writers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(sc.TYPES)
        writers.append({"t": t, "auto": t not in sc.POINTS and rng.random() < 0.3, "enc": rng.choice(sc.ENCS)})
    fields = [[] for _ in writers]
    ops = []
    for _ in range(rng.choice([5, 10, 20, 30])):
        i = rng.randrange(len(writers))
        wr = writers[i]
        k = rng.random()
        if k < 0.18 or not fields[i]:
            f = sc.gen_fields(rng)[0]
            f[0] = "F%d" % len(fields[i]) if rng.random() < 0.5 else "f_%d z" % len(fields[i])
            fields[i].append(f)
            ops.append(["field", i, f])
        elif k < 0.5:
            s = sc.gen_shape(rng, wr["t"])
            s["tuples"] = rng.random() < 0.2
            if wr["auto"]:
                s.pop("dflt", None)
                s["line"] = wr["t"] in (3, 13, 23) and s.get("line", False)
            ops.append(["shape", i, s])
            if rng.random() < 0.7:
                ops.append(["record", i, sc.gen_record(rng, fields[i], wr["enc"])])
        elif k < 0.6:
            ops.append(["record", i, sc.gen_record(rng, fields[i], wr["enc"])])
        elif k < 0.65:
            ops.append(["mutate", i])
        elif k < 0.85:
            ops.append(["save", i, rng.choice(["path", "path", "ext", "gen", "files", "bytesio", "again"]), "t%d" % rng.randrange(3), EXTS])
        else:
            ops.append(["save", i, rng.choice(["path", "path", "files", "bytesio", "again"]), "t%d" % rng.randrange(3), rng.sample(EXTS, rng.choice([1, 1, 2]))])
    for i in range(len(writers)):
        ops.append(["save", i, "path", "last%d" % i, EXTS])
    return {"bufsize": gens.bufsize(rng), "writers": writers, "ops": ops, "faults": [], "capacity": None}


def variants(rng, scn, res, tier):
    for _ in range(6 if tier == "quick" else 12):
        s = dict(scn)
        if rng.random() < 0.85:
            s["faults"] = gens.faults(rng, res, ("save",), ("write", "open", "close", "seek", "remove", "rename"), persist=0)
            if not s["faults"]:
                continue
        else:
            s["capacity"] = rng.choice([0, 30, 99, 150, 300, 700])
        if rng.random() < 0.3:
            s["bufsize"] = gens.bufsize(rng)
        yield s


class Model:
    def __init__(self, spec):
        self.spec, self.fields, self.shapes, self.recs, self.given, self.saves = spec, [], [], [], [], 0
        self.objs = None

    def type(self):
        if not self.spec["auto"] or any(s["type"] for s in self.shapes):
            return self.spec["t"]
        return 0


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    w.clock.now = 1.4e9
    sf = C["shapefile"]
    ws, ms = [], []
    for spec in scn["writers"]:
        if spec["auto"]:
            ws.append(w.must("writer", sf.Writer, encoding=spec["enc"]))
        else:
            ws.append(w.must("writer", sf.Writer, spec["t"], encoding=spec["enc"]))
        ms.append(Model(spec))
    if len(ws) > 1:
        w.probe("two-writers")
    failed_before = False

    def held(wr, m):
        """What the writer says it holds."""
        got = w.must("shapes", wr.shapes)
        expect(len(got) == len(m.shapes), "wrong-shapes", "%d of %d" % (len(got), len(m.shapes)))
        for i, s in enumerate(m.shapes):
            a = w.must("shape", wr.shape, i)
            expect(a is got[i] and [list(p[:2]) for p in a.points] == [list(p) for p in s["points"]], "wrong-shapes", "shape %d: %r" % (i, a.points[:5]))

    def save(i, how, name, exts):
        """Returns True if it saved, False after an injected error."""
        nonlocal failed_before
        wr, m = ws[i], ms[i]
        exts = [e for e in EXTS if e in exts]
        if not exts:
            return True
        before = gens.errors_fired(w)
        objs = None
        snap = fs.snapshot()
        if how in ("files", "bytesio", "again"):
            w.probe("file-objects")
            if how == "again" and m.objs is not None:
                objs = m.objs
                w.probe("reused-object")
            elif how == "files":
                try:
                    objs = {e: open(name + "." + e, "wb") for e in EXTS}
                except OSError:
                    return False
            else:
                objs = m.objs = {e: io.BytesIO() for e in EXTS}
            st, v = w.call(lambda: wr.save(**{e: objs[e] for e in exts}))
            if st == "ok":
                for e in exts:
                    if how == "files":
                        try:
                            objs[e].close()
                        except OSError as x:
                            st, v = "exc", x
                    else:
                        fs.poke(name + "." + e, objs[e].getvalue())
        elif len(exts) == 3:
            st, v = w.call(wr.save) if how == "gen" else w.call(wr.save, name + ".shp" if how == "ext" else name)
            if how == "gen":
                w.probe("generated")
                if st == "ok":
                    expect(isinstance(v, str), "generated-name", repr(v))
                    name = v
        else:
            w.probe("partial")
            st, v = "ok", None
            for e in exts:
                if st == "ok":
                    st, v = w.call({"shp": wr.saveShp, "shx": wr.saveShx, "dbf": wr.saveDbf}[e], name)
        if st == "exc":
            if gens.errors_fired(w) == before and fs.capacity is None:
                raise Violation("save-failed", "%s %s: %r" % (how, exts, v))
            w.probe("save-error")
            failed_before = True
            if how == "again":
                m.objs = None
            return False
        if failed_before:
            w.probe("retry")
        m.saves += 1
        if m.saves > 1:
            w.probe("second-save")
        recs = [list(r) + [""] * (len(m.fields) - len(r)) for r in m.recs]
        sc.check_bytes("bad-save", fs, name, m.type(), m.shapes, m.fields, recs, m.spec["enc"], exts)
        if "shx" in exts and "shp" not in exts:
            b = io.BytesIO()
            if w.call(lambda: wr.save(shp=b))[0] == "ok":
                try:
                    sc.check_shp(b.getvalue(), fs.peek(name + ".shx"), m.type(), m.shapes)
                except sc.Bad as e:
                    raise Violation("bad-save", "index alone: %s" % e)
        mine = {fs.norm(name) + "." + e for e in (EXTS if len(exts) == 3 or how == "files" else exts)}
        for p in sorted(snap):
            if p not in mine:
                expect(fs.peek(p) == snap[p], "other-file-changed", "%s changed by saving %s" % (p, name))
        for p in sorted(fs.snapshot()):
            expect(p in snap or p in mine or any(k.startswith("remove:") for k in w.fired), "extra-file", p)
        for obj, copy in m.given:
            expect([[list(p) for p in part] for part in obj] == copy, "argument-changed", repr(copy)[:300])
        return True

    for op in scn["ops"]:
        if op[1] >= len(ws):
            continue
        wr, m = ws[op[1]], ms[op[1]]
        if op[0] == "field":
            if op[2][0] in [f[0] for f in m.fields]:
                raise Invalid("field")
            m.fields.append(op[2])
            sc.check_fields(m.fields, m.spec["enc"])
            if m.recs:
                w.probe("late-field")
            sc.add_field(w, wr, op[2])
        elif op[0] == "shape":
            m.shapes.append(sc.model_shape(m.spec["t"], op[2]))
            sc.add_shape(w, wr, m.spec["t"], op[2], m.given)
        elif op[0] == "record":
            if len(op[2]["v"]) != len(m.fields):
                raise Invalid("record")
            if op[2]["kw"]:
                w.probe("kw-record")
            m.recs.append(sc.model_record(m.fields, op[2], m.spec["enc"]))
            sc.add_record(w, wr, m.fields, op[2])
        elif op[0] == "mutate":
            for obj, copy in m.given:
                if isinstance(obj, list):
                    w.probe("mutated")
                    for part in obj:
                        for p in part:
                            p[0] = 12345.0
                        part.append([7.0, 7.0])
                    obj.append([[1.0, 2.0]])
            m.given[:] = []
        elif op[0] == "save":
            held(wr, m)
            fs.set_phase("save")
            if scn["capacity"] is not None:
                fs.capacity = fs.used() + scn["capacity"]
            ok = save(*op[1:])
            if not ok:
                fs.capacity = None
                # the fault is transient: some further attempt gets through
                for _ in range(12):
                    if save(*op[1:]):
                        break
                else:
                    raise Violation("save-failed", "still failing after the fault is gone")
            fs.set_phase("-")
