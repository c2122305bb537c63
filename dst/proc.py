"""Simulated external programs: Ghostscript and ImageMagick's convert, run against the simulated disk."""
import hashlib
import shlex
import subprocess

from .core import ProcessKilled


class Result:
    def __init__(self, args, rc):
        self.args, self.returncode = args, rc
        self.stdout = self.stderr = None

    def check_returncode(self):
        if self.returncode:
            raise subprocess.CalledProcessError(self.returncode, self.args)


class Procs:
    """faults: [{"at": k, "kind": "spawn"|"fail"|"killed"|"partial", "rc": n}] on the k-th process start."""

    def __init__(self, world, faults=()):
        self.w = world
        world.procs = self
        self.programs = {"gs", "convert"}
        self.faults = {f["at"]: f for f in faults}
        self.n = 0
        self.log = []          # (argv, returncode, client)
        self.rendered = []     # (input path, document, output path)

    def run(self, args, shell=False, **kw):
        w = self.w
        w.fs.op("proc", args if isinstance(args, str) else " ".join(map(str, args)))
        self.n += 1
        f = self.faults.get(self.n)
        if f is not None and f["kind"] == "spawn":
            w.fire("proc:spawn")
            raise OSError(12, "Cannot allocate memory")
        if shell:
            if not isinstance(args, str):
                args = args[0]
            try:
                argv = shlex.split(args)
            except ValueError:
                return self._end(args, 2)
            # unquoted shell metacharacters would run something else: the simulated shell only knows plain commands
            if self._meta(args):
                return self._end(args, 2)
        elif isinstance(args, str):
            argv = [args]
        else:
            argv = [str(a) for a in args]
        prog = argv[0].rsplit("/", 1)[-1]
        if prog not in self.programs:
            if shell:
                return self._end(argv, 127)
            raise FileNotFoundError(2, "No such file or directory", argv[0])
        if f is not None and f["kind"] == "fail":
            w.fire("proc:fail")
            return self._end(argv, f.get("rc", 1))
        if f is not None and f["kind"] == "killed":
            w.fire("proc:killed")
            # a shell either replaces itself by a simple command or waits for it and reports 128 + signal
            return self._end(argv, -9 if f.get("exec") or not shell else 137)
        partial = f is not None and f["kind"] == "partial"
        rc = self.gs(argv, partial) if prog == "gs" else self.convert(argv, partial)
        if partial and rc == 0:
            w.fire("proc:fail")
            rc = 1
        w.sched.point("proc-end")
        return self._end(argv, rc)

    @staticmethod
    def _meta(cmd):
        lex = shlex.shlex(cmd, posix=True, punctuation_chars=True)
        lex.whitespace_split = True
        try:
            return any(t and set(t) <= set("();<>|&") for t in lex)
        except ValueError:
            return True

    def _end(self, argv, rc):
        s = self.w.sched
        self.log.append((argv, rc, s.cur if s.active else -1))
        return Result(argv, rc)

    def gs(self, argv, partial=False):
        fs, w = self.w.fs, self.w
        out, dev, src = None, None, []
        i = 1
        while i < len(argv):
            a = argv[i]
            if a.startswith("-sOutputFile="):
                out = a.split("=", 1)[1]
            elif a == "-o":
                i += 1
                out = argv[i]
            elif a.startswith("-sDEVICE="):
                dev = a.split("=", 1)[1]
            elif a == "-f":
                pass
            elif a.startswith("-"):
                pass
            else:
                src.append(a)
            i += 1
        if out is None or len(src) != 1 or dev is None:
            return 1
        p = fs.norm(src[0])
        if p not in fs.files:
            return 1
        w.sched.point("gs-read")
        if p not in fs.files:
            return 1
        doc = bytes(fs.files[p].data)
        w.sched.point("gs-render")
        o = fs.norm(out)
        if o.rsplit("/", 1)[0] not in fs.dirs and o.rsplit("/", 1)[0] != "":
            return 1
        if not doc.startswith(b"%!PS"):
            return 1
        img = b"IMG:" + dev.encode() + b":" + doc
        fs.poke(o, img[:len(img) // 2] if partial else img)
        self.rendered.append((p, doc, o))
        w.ev("gs", p, len(doc), o)
        return 0

    def convert(self, argv, partial=False):
        fs, w = self.w.fs, self.w
        rest, i, delay = [], 1, None
        while i < len(argv):
            if argv[i] in ("-delay", "-loop"):
                if argv[i] == "-delay":
                    delay = argv[i + 1]
                i += 2
            else:
                rest.append(argv[i])
                i += 1
        if len(rest) < 2:
            return 1
        frames = []
        for p in rest[:-1]:
            w.sched.point("convert-read")
            q = fs.norm(p)
            if q not in fs.files:
                return 1
            d = bytes(fs.files[q].data)
            if not d.startswith(b"IMG:"):
                return 1
            frames.append(d)
        o = fs.norm(rest[-1])
        if o.rsplit("/", 1)[0] not in fs.dirs:
            return 1
        gif = b"GIF:%s:%d:" % (str(delay).encode(), len(frames)) + b"".join(b"%d:" % len(d) + d for d in frames)
        fs.poke(o, gif[:len(gif) // 2] if partial else gif)
        w.ev("convert", len(frames), o)
        return 0


def split_gif(data):
    head, delay, n, rest = data.split(b":", 3)
    assert head == b"GIF"
    out = []
    for _ in range(int(n)):
        k, rest = rest.split(b":", 1)
        out.append(rest[:int(k)])
        rest = rest[int(k):]
    return out, delay.decode()
