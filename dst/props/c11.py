"""Export and animation: right picture, no interference, no leftovers."""
import copy
import importlib.util
import sys

from .. import gens, proc
from ..core import Invalid, Violation, expect
from ..engine import C
from ..fs import SimFS
from . import c10

ID = "C11"
BUDGET = {"quick": (2250, 75), "thorough": (20000, 420)}
RULE = ("Seeded programs of 1-3 concurrent clients (threads of one process, or processes with their own module state and process ID) that export canvases, convert saved documents and "
        "make animations with odd output names; pre-empted at random source lines, system calls and renderer steps; file-system errors, renderers that cannot be started, fail, are "
        "killed or stop half-way; everything that failed is repeated without faults.")
REAL = ["coral.vector (Canvas.export, export, animation)", "coral.tqdm", "coral.bbox", "coral/defs.ps", "Python io buffering", "shell word splitting by shlex"]
STUB = ["Ghostscript and convert (dst.proc)", "disk and directories (dst.fs)", "tempfile naming", "thread scheduler (dst.core)", "PostScript interpreter (dst.ps)"]
ASSUME = ["output paths contain no '%' (page numbers for Ghostscript), do not start with '-' and name existing directories", "an animation has at least one frame"]
PROBES = ["spawn-failed", "render-failed", "partial", "save-failed", "threads", "processes", "animation", "shared-canvas", "odd-name", "animated-before", "overlap"]
NOSHRINK = ("anchor", "mode", "k", "dev")
OUT = ["a.png", "a.pdf", "b c.png", "it's.png", 'say "x".png', "sub dir/f.png", "/sim/out/g.png", "h;i.png", "(j).png", "k&l.png", "a.gif", "m n.gif", "o'p.gif"]
DEVS = ["png256", "pngmono", "pdfwrite", "pngalpha"]


def gen_canvas(rng):
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        it = c10.gen_item(rng, 0)
        if it[0] == "round" and len(it[2]) > 10:
            continue
        ops.append(it)
    return {"bg": rng.choice([None, 1, [0, 0, 1]]), "items": ops}


def generate(rng, tier):
    ncl = rng.choice([1, 2, 2, 2, 3])
    names = OUT[:]
    rng.shuffle(names)
    cans = [gen_canvas(rng) for _ in range(rng.choice([1, 2, 3]))]
    procs = rng.random() < 0.35
    share = not procs and rng.random() < 0.25
    clients = []
    for _ in range(ncl):
        jobs = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if not names:
                break
            out = names.pop()
            if k < 0.6 or share:
                jobs.append(["export", rng.randrange(len(cans)), out, rng.choice([None] + DEVS), rng.choice([None, None, 100]), rng.choice([None, 0, 5])])
            elif k < 0.75:
                jobs.append(["conv", rng.randrange(len(cans)), out, rng.choice([None] + DEVS)])
            else:
                n = rng.choice([1, 2, 2, 3, 11] + [60, 101] * (rng.random() < 0.08))
                seq = [rng.randrange(len(cans)) for _ in range(n)]
                if n > 3 and rng.random() < 0.6:
                    # one frame is unlike the others
                    seq = [seq[0]] * n
                    seq[rng.randrange(n)] = rng.randrange(len(cans))
                jobs.append(["anim", seq, out, rng.choice([None, 3]), rng.choice([None] + DEVS), rng.choice([None, 5])])
        clients.append(jobs)
    return {"bufsize": gens.bufsize(rng), "canvases": cans, "procs": procs, "share": share, "clients": clients, "faults": [], "pfaults": [], "preempt": [], "lines": rng.random() < 0.5}


def variants(rng, scn, res, tier):
    n = max(1, res["counts"].get("run|proc", 1))
    for i in range(4 if tier == "quick" else 8):
        s = dict(scn)
        if len(scn["clients"]) > 1:
            s["preempt"] = gens.preempts(rng, res["steps"], len(scn["clients"]), rng.choice([2, 6, 40]))
        if rng.random() < 0.6:
            if rng.random() < 0.5:
                s["faults"] = gens.faults(rng, res, ("run",), persist=0.1)
            if rng.random() < 0.5 or not s["faults"]:
                s["pfaults"] = [{"at": rng.randint(1, n), "t": rng.choice(["spawn", "fail", "killed", "partial"]), "rc": rng.choice([1, 2, 255]), "exec": rng.random() < 0.5} for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.4:
            s["bufsize"] = gens.bufsize(rng)
        yield s


def another_process(n):
    """A copy of the module, as another process would have it."""
    spec = importlib.util.spec_from_file_location("coral.vector_p%d" % n, C["vector"].__file__)
    m = importlib.util.module_from_spec(spec)
    m.__package__ = "coral"
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    return m


def box_of(data):
    for line in data.decode("utf-8", "replace").splitlines():
        if line.startswith("%%BoundingBox:"):
            try:
                v = [float(x) for x in line.split(":")[1].split()]
            except ValueError:
                v = []
            expect(len(v) == 4, "wrong-picture", line)
            return v
    raise Violation("wrong-picture", "no bounding box")


def covers(box, m, cls):
    if m.box is None or tuple(m.box) == (0, 0, 0, 0):
        return
    tol = 1e-9 * max(1, *map(abs, m.box))
    expect(box[0] <= m.box[0] + tol and box[1] <= m.box[1] + tol and box[2] >= m.box[2] - tol and box[3] >= m.box[3] - tol, cls, "extent %r does not cover %r" % (box, m.box))


def picture(data, dev, cls):
    expect(data is not None, cls, "no output file")
    head = b"IMG:" + (dev or "png256").encode() + b":"
    expect(data.startswith(head), cls, "not rendered for %s: %r" % (dev or "png256", data[:20]))
    return data[len(head):]


def execute(scn, w):
    fs = SimFS(w, scn["faults"], scn["bufsize"] or 1)
    fs.dirs.add("/sim/work/sub dir")
    pr = proc.Procs(w, [dict(f, kind=f["t"]) for f in scn["pfaults"]])
    V = C["vector"]
    ncl = len(scn["clients"])
    if not ncl:
        raise Invalid("clients")
    w.pids = {i: 4100 + i if scn["procs"] else 4000 for i in range(ncl)}
    outs = [j[2] for jobs in scn["clients"] for j in jobs]
    if len(set(outs)) != len(outs) or any(o not in OUT for o in outs):
        raise Invalid("outputs")
    if scn["share"] and any(j[0] != "export" for jobs in scn["clients"] for j in jobs):
        raise Invalid("share")
    if scn["procs"] and ncl > 1:
        mods = [another_process(i) for i in range(ncl)]
        w.probe("processes")
    else:
        mods = [V] * ncl
        if ncl > 1:
            w.probe("threads")

    def build(V):
        cvs, ms = [], []
        for c in scn["canvases"]:
            cv = w.must("canvas", V.Canvas, *([] if c["bg"] is None else [c10.ink_arg(c["bg"])]))
            m = c10.Model(c["bg"])
            for it in c["items"]:
                if c10.origin_only(it):
                    raise Invalid("origin")
                c10.apply_item(w, it, cv, m)
            cvs.append(cv)
            ms.append(m)
        return cvs, ms
    fs.set_phase("build")
    built = [build(m) for m in mods]
    if scn["share"]:
        built = [built[0]] * ncl
        if ncl > 1:
            w.probe("shared-canvas")
    # documents to convert, and files that have nothing to do with any of this
    fs.poke("a.ps", b"mine")
    fs.poke("/tmp/tempeps.ps", b"mine too")
    fs.poke("/tmp/0.png", b"also mine")
    src = {}
    for i, jobs in enumerate(scn["clients"]):
        for n, j in enumerate(jobs):
            if j[0] == "conv":
                if not 0 <= j[1] < len(scn["canvases"]):
                    raise Invalid("canvas")
                src[i, n] = "doc %d.%d's.eps" % (i, n)
                w.must("save", built[i][0][j[1]].save, src[i, n])
    animated = [set() for _ in mods]
    mine = {p: bytes(d.data) for p, d in fs.files.items()}
    dirs = set(fs.dirs)
    fs.set_phase("run")

    used = {}

    def start(i, n, j):
        """One job: (state, value, renderer runs)."""
        V, (cvs, ms) = mods[i], built[i]
        k = j[0]
        ids = j[1] if k == "anim" else [j[1]]
        if not ids or any(not 0 <= c < len(cvs) for c in ids):
            raise Invalid("canvas")
        before = len(pr.log)
        kw = {}
        if k == "export":
            if j[3] is not None:
                kw["device"] = j[3]
            size, margin = used[i, n] = settings(i, j)
            if size is not None:
                kw["size"] = size
            if margin is not None:
                kw["margin"] = margin
            r = w.call(cvs[j[1]].export, j[2], **kw)
        elif k == "conv":
            if j[3] is not None:
                kw["device"] = j[3]
            r = w.call(V.export, src[i, n], j[2], **kw)
        else:
            if j[3] is not None:
                kw["delay"] = j[3]
            if j[4] is not None:
                kw["device"] = j[4]
            if j[5] is not None:
                kw["margin"] = j[5]
            animated[i].update(ids)
            w.probe("animation")
            r = w.call(V.animation, j[2], [cvs[c] for c in ids], **kw)
        mine_runs = [e for e in pr.log[before:] if e[2] in (i, -1)]
        return r + (mine_runs,)

    def settings(i, j):
        m = built[i][1][j[1]]
        size, margin = j[4], j[5]
        if size is not None and (j[1] in animated[i] or not c10.has_extent(m) or size <= (margin or 0)):
            size = None
        return size, margin

    def judge(i, n, j, was_animated):
        cls = "wrong-picture"
        ms = built[i][1]
        if any(c in j[2] for c in " ;'\"()&"):
            w.probe("odd-name")
        data = fs.peek(j[2])
        if j[0] == "export":
            doc = picture(data, j[3], cls)
            m = copy.copy(ms[j[1]])
            size, margin = used[i, n]
            if was_animated:
                b = box_of(doc)
                mg = margin or 0
                covers((b[0] + mg, b[1] + mg, b[2] - mg, b[3] - mg), m, cls)
                m.box = (b[0] + mg, b[1] + mg, b[2] - mg, b[3] - mg)
                w.probe("animated-before")
            c10.judge_doc(w, doc, m, size, margin or 0, cls)
        elif j[0] == "conv":
            doc = picture(data, j[3], cls)
            expect(doc == fs.peek(src[i, n]), cls, "another document was rendered")
        else:
            expect(data is not None, cls, "no animation")
            try:
                frames, delay = proc.split_gif(data)
            except (ValueError, AssertionError):
                raise Violation(cls, "not an animation: %r" % data[:20])
            expect(len(frames) == len(j[1]), cls, "%d frames instead of %d" % (len(frames), len(j[1])))
            expect(delay == str(10 if j[3] is None else j[3]), cls, "delay %s" % delay)
            first = None
            mg = j[5] or 0
            for c, f in zip(j[1], frames):
                doc = picture(f, j[4], cls)
                b = box_of(doc)
                if first is None:
                    first = b
                expect(b == first, cls, "frames have different extents: %r, %r" % (first, b))
                b = (b[0] + mg, b[1] + mg, b[2] - mg, b[3] - mg)
                m = copy.copy(ms[c])
                covers(b, m, cls)
                m.box = b
                c10.judge_doc(w, doc, m, None, mg, cls)

    def client(i):
        def run():
            out = []
            for n, j in enumerate(scn["clients"][i]):
                was = j[0] == "export" and j[1] in animated[i]
                k0 = len(w.fired_by.get(i, ()))
                st, v, runs = start(i, n, j)
                out.append((n, j, was, st, v, runs, w.fired_by.get(i, [])[k0:]))
            return out
        return run

    def leftovers(excused):
        extra = sorted(set(fs.files) - set(mine) - {fs.norm(o) for o in outs})
        extra += sorted(fs.dirs - dirs)
        expect(excused or not extra, "leftovers", "left behind: %s" % ", ".join(extra))
        for p, d in mine.items():
            expect(fs.peek(p) == d, "foreign-file-changed", p)

    st = w.sched.run([client(i) for i in range(ncl)], scn["preempt"], scn["lines"])
    for s, v in st:
        if s == "exc":
            raise v
    if w.sched.switches:
        w.probe("overlap")
    failed = []
    for i, (s, out) in enumerate(st):
        for n, j, was, state, v, runs, kinds in out:
            errs = [k for k in kinds if k.rsplit(":", 1)[1] not in ("short", "eintr")]
            if state == "exc":
                expect(any(k not in ("proc:fail", "proc:killed") for k in errs), "unexpected-error", "%s %r: %r" % (j[0], j[2], v))
                w.probe("spawn-failed" if "proc:spawn" in errs else "save-failed")
                failed.append((i, n, j))
                continue
            expect(isinstance(v, int), "wrong-status", "%s returned %r" % (j[0], v))
            if runs and (j[0] != "anim" or v == 0):
                expect(v == runs[-1][1], "wrong-status", "%s returned %r, the renderer %r" % (j[0], v, runs[-1][1]))
            if v == 0:
                expect(all(r[1] == 0 for r in runs), "failure-hidden", "%s %r" % (j[0], j[2]))
                judge(i, n, j, was)
            else:
                expect(errs, "unexpected-status", "%s %r returned %r" % (j[0], j[2], v))
                w.probe("render-failed")
                if any(f["t"] == "partial" for f in scn["pfaults"]):
                    w.probe("partial")
                failed.append((i, n, j))
    excused = any(k.startswith(("remove:", "rmtree:", "rmdir:")) for k in w.fired)
    leftovers(excused)
    # once the faults are gone
    mine = {p: bytes(d.data) for p, d in fs.files.items() if p not in {fs.norm(o) for o in outs}}
    dirs = set(fs.dirs)
    fs.faults = []
    pr.faults = {}
    for i, n, j in failed:
        was = j[0] == "export" and j[1] in animated[i]
        s, v, runs = start(i, n, j)
        expect(s == "ok" and v == 0, "second-try-failed", "%s %r: %r" % (j[0], j[2], v))
        judge(i, n, j, was)
    leftovers(False)
