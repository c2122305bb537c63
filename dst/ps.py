"""A small PostScript interpreter: executes a document and records what it paints, in device coordinates."""
import math


class PSError(Exception):
    pass


class Unsupported(Exception):
    """A construct this interpreter does not know: inconclusive, not an error of the document."""


class Name(str):
    """An executable name."""


class Lit(str):
    """A literal name."""


class PStr(str):
    pass


class Proc(list):
    pass


MARK = object()
DELIM = "()<>[]{}/%"
WHITE = " \t\r\n\f\0"


class Tokens:
    def __init__(self, s):
        self.s, self.i, self.comments = s, 0, []

    def next(self):
        s, n = self.s, len(self.s)
        while self.i < n:
            c = s[self.i]
            if c in WHITE:
                self.i += 1
            elif c == "%":
                j = self.i
                while j < n and s[j] not in "\r\n":
                    j += 1
                self.comments.append(s[self.i:j])
                self.i = j
            else:
                break
        if self.i >= n:
            return None
        c = s[self.i]
        if c == "(":
            return self.string()
        if c in "[]{}":
            self.i += 1
            return c
        if c == "<":
            if s[self.i:self.i + 2] == "<<":
                self.i += 2
                return Name("<<")
            j = s.find(">", self.i)
            if j < 0:
                raise PSError("unterminated hex string")
            h = "".join(x for x in s[self.i + 1:j] if x not in WHITE)
            self.i = j + 1
            if len(h) % 2:
                h += "0"
            try:
                return PStr(bytes.fromhex(h).decode("latin-1"))
            except ValueError:
                raise PSError("bad hex string")
        if c == ">":
            if s[self.i:self.i + 2] == ">>":
                self.i += 2
                return Name(">>")
            raise PSError("stray >")
        if c == ")":
            raise PSError("stray )")
        lit = c == "/"
        if lit:
            self.i += 1
        j = self.i
        while j < n and s[j] not in WHITE and s[j] not in DELIM:
            j += 1
        w = s[self.i:j]
        self.i = j
        if lit:
            return Lit(w)
        try:
            return int(w)
        except ValueError:
            pass
        try:
            if not any(x in w.lower() for x in ("n", "_", "inf")):
                return float(w)
        except ValueError:
            pass
        return Name(w)

    def string(self):
        s, n = self.s, len(self.s)
        self.i += 1
        depth, out = 1, []
        while self.i < n:
            c = s[self.i]
            self.i += 1
            if c == "\\":
                if self.i >= n:
                    break
                e = s[self.i]
                self.i += 1
                if e in "nrtbf":
                    out.append({"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}[e])
                elif e in "01234567":
                    o = e
                    while len(o) < 3 and self.i < n and s[self.i] in "01234567":
                        o += s[self.i]
                        self.i += 1
                    out.append(chr(int(o, 8) & 255))
                elif e == "\r":
                    if s[self.i:self.i + 1] == "\n":
                        self.i += 1
                elif e == "\n":
                    pass
                else:
                    out.append(e)
            elif c == "(":
                depth += 1
                out.append(c)
            elif c == ")":
                depth -= 1
                if not depth:
                    return PStr("".join(out))
                out.append(c)
            elif c == "\r":
                if s[self.i:self.i + 1] == "\n":
                    self.i += 1
                out.append("\n")
            else:
                out.append(c)
        raise PSError("unterminated string")


def mul(m, n):
    """Apply m first, then n."""
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a * g + b * i, a * h + b * j, c * g + d * i, c * h + d * j, e * g + f * i + k, e * h + f * j + l)


def inv(m):
    a, b, c, d, e, f = m
    det = a * d - b * c
    if det == 0:
        raise PSError("undefinedresult: singular matrix")
    return (d / det, -b / det, -c / det, a / det, (c * f - d * e) / det, (b * e - a * f) / det)


def app(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


class GS:
    def __init__(self):
        self.ctm = (1, 0, 0, 1, 0, 0)
        self.rgb = (0.0, 0.0, 0.0)
        self.width = 1
        self.dash = ((), 0)
        self.font = None
        self.path = []
        self.cur = None      # device coordinates
        self.start = None

    def copy(self):
        g = GS()
        g.__dict__.update(self.__dict__)
        g.path = list(self.path)
        return g


class Exit(Exception):
    pass


# advance width and height of a string in a font of size 1
ADVANCE, HEIGHT = 0.55, 0.7


class Interp:
    def __init__(self, text, limit=2000000):
        self.stack, self.gstack, self.gs = [], [], GS()
        self.dicts = [{}]
        self.painted = []
        self.limit = limit
        self.tokens = Tokens(text)

    # -- running
    def run(self):
        while True:
            t = self.tokens.next()
            if t is None:
                return self
            self.feed(t)

    def feed(self, t):
        if t == "{" and type(t) is str:
            self.push(self.proc())
        elif type(t) is str and t == "[":
            self.push(MARK)
        elif type(t) is str and t == "]":
            self.array()
        elif type(t) is str and t == "}":
            raise PSError("stray }")
        else:
            self.exec(t)

    def proc(self):
        p = Proc()
        while True:
            t = self.tokens.next()
            if t is None:
                raise PSError("unterminated procedure")
            if type(t) is str:
                if t == "}":
                    return p
                if t == "{":
                    p.append(self.proc())
                    continue
                p.append(Name(t))
                continue
            p.append(t)

    def array(self):
        out = []
        while self.stack:
            x = self.stack.pop()
            if x is MARK:
                self.push(out[::-1])
                return
            out.append(x)
        raise PSError("unmatchedmark")

    def exec(self, t):
        self.limit -= 1
        if self.limit < 0:
            raise PSError("endless program")
        if not isinstance(t, Name):
            self.push(t)
            return
        v = self.lookup(t)
        if v is None:
            if t == "[":
                self.push(MARK)
                return
            if t == "]":
                self.array()
                return
            f = getattr(self, "op_" + t, None)
            if f is None:
                if t in PSOPS:
                    raise Unsupported("operator " + t)
                raise PSError("undefined: %s" % t)
            f()
        elif isinstance(v, Proc):
            self.call(v)
        elif callable(v):
            v()
        else:
            self.push(v)

    def call(self, p):
        if not isinstance(p, Proc):
            if isinstance(p, Name):
                self.exec(p)
            else:
                self.push(p)
            return
        for t in p:
            if isinstance(t, Proc):
                self.push(t)
            else:
                self.exec(t)

    def lookup(self, n):
        for d in reversed(self.dicts):
            if str(n) in d:
                return d[str(n)]
        return None

    def push(self, *a):
        self.stack.extend(a)
        if len(self.stack) > 500:          # the limit the language reference gives for common interpreters
            raise PSError("stackoverflow")

    def pop(self):
        if not self.stack:
            raise PSError("stackunderflow")
        return self.stack.pop()

    def num(self):
        v = self.pop()
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise PSError("typecheck: %r is not a number" % (v,))
        return v

    def nums(self, n):
        return [self.num() for _ in range(n)][::-1]

    # -- operators: stack, arithmetic, control
    def op_dup(self):
        v = self.pop()
        self.push(v, v)

    def op_pop(self):
        self.pop()

    def op_exch(self):
        b, a = self.pop(), self.pop()
        self.push(b, a)

    def op_roll(self):
        j, n = int(self.num()), 0
        n = int(self.num())
        if n < 0 or n > len(self.stack):
            raise PSError("roll: stackunderflow")
        if n:
            j %= n
            part = self.stack[-n:]
            self.stack[-n:] = part[n - j:] + part[:n - j]

    def op_index(self):
        n = int(self.num())
        if not 0 <= n < len(self.stack):
            raise PSError("index: rangecheck")
        self.push(self.stack[-1 - n])

    def op_copy(self):
        n = int(self.num())
        if n:
            if n > len(self.stack):
                raise PSError("copy: stackunderflow")
            self.stack += self.stack[-n:]

    def op_clear(self):
        self.stack = []

    def op_count(self):
        self.push(len(self.stack))

    def op_mark(self):
        self.push(MARK)

    def op_cleartomark(self):
        while self.pop() is not MARK:
            pass

    def _bin(f):
        def g(self):
            a, b = self.nums(2)
            try:
                self.push(f(a, b))
            except ZeroDivisionError:
                raise PSError("undefinedresult")
        return g
    op_add = _bin(lambda a, b: a + b)
    op_sub = _bin(lambda a, b: a - b)
    op_mul = _bin(lambda a, b: a * b)
    op_div = _bin(lambda a, b: a / b)
    op_idiv = _bin(lambda a, b: int(a / b))
    op_mod = _bin(lambda a, b: math.fmod(a, b))
    op_gt = _bin(lambda a, b: a > b)
    op_lt = _bin(lambda a, b: a < b)
    op_ge = _bin(lambda a, b: a >= b)
    op_le = _bin(lambda a, b: a <= b)
    op_atan = _bin(lambda a, b: math.degrees(math.atan2(a, b)) % 360)
    op_exp = _bin(lambda a, b: a ** b)
    del _bin

    def _un(f):
        def g(self):
            self.push(f(self.num()))
        return g
    op_neg = _un(lambda a: -a)
    op_abs = _un(abs)
    op_sqrt = _un(lambda a: math.sqrt(a))
    op_cvi = _un(int)
    op_cvr = _un(float)
    op_round = _un(lambda a: math.floor(a + 0.5))
    op_floor = _un(math.floor)
    op_ceiling = _un(math.ceil)
    op_truncate = _un(int)
    op_sin = _un(lambda a: math.sin(math.radians(a)))
    op_cos = _un(lambda a: math.cos(math.radians(a)))
    del _un

    def op_eq(self):
        b, a = self.pop(), self.pop()
        self.push(a == b)

    def op_ne(self):
        b, a = self.pop(), self.pop()
        self.push(a != b)

    def op_not(self):
        self.push(not self.pop())

    def op_and(self):
        b, a = self.pop(), self.pop()
        self.push(a and b)

    def op_or(self):
        b, a = self.pop(), self.pop()
        self.push(a or b)

    def op_true(self):
        self.push(True)

    def op_false(self):
        self.push(False)

    def op_null(self):
        self.push(None)

    def op_bind(self):
        pass

    def op_def(self):
        v, k = self.pop(), self.pop()
        if not isinstance(k, Lit):
            raise PSError("def: typecheck %r" % (k,))
        self.dicts[-1][str(k)] = v

    def op_load(self):
        k = self.pop()
        v = self.lookup(k)
        if v is None:
            f = getattr(self, "op_" + k, None)
            if f is None:
                raise PSError("undefined: %s" % k)
            v = Proc([Name(k)])
        self.push(v)

    def op_dict(self):
        self.num()
        self.push({})

    def op_begin(self):
        d = self.pop()
        if not isinstance(d, dict):
            raise PSError("begin: typecheck")
        self.dicts.append(d)

    def op_end(self):
        if len(self.dicts) < 2:
            raise PSError("dictstackunderflow")
        self.dicts.pop()

    def op_userdict(self):
        self.push(self.dicts[0])

    op_currentdict = op_globaldict = op_userdict

    def op_cvx(self):
        v = self.pop()
        if isinstance(v, Lit):
            v = Name(v)
        elif isinstance(v, list):
            v = Proc(v)
        self.push(v)

    def op_exec(self):
        self.call(self.pop())

    def op_if(self):
        p, c = self.pop(), self.pop()
        if c:
            self.call(p)

    def op_ifelse(self):
        q, p, c = self.pop(), self.pop(), self.pop()
        self.call(p if c else q)

    def op_repeat(self):
        p, n = self.pop(), int(self.num())
        try:
            for _ in range(n):
                self.call(p)
        except Exit:
            pass

    def op_for(self):
        p = self.pop()
        a, step, b = self.nums(3)
        if not step:
            raise PSError("for: no step")
        try:
            while a <= b if step > 0 else a >= b:
                self.push(a)
                self.call(p)
                a += step
        except Exit:
            pass

    def op_forall(self):
        p, a = self.pop(), self.pop()
        try:
            for x in list(a):
                self.push(ord(x) if isinstance(a, PStr) else x)
                self.call(p)
        except Exit:
            pass

    def op_loop(self):
        p = self.pop()
        try:
            while True:
                self.limit -= 1
                if self.limit < 0:
                    raise PSError("endless loop")
                self.call(p)
        except Exit:
            pass

    def op_exit(self):
        raise Exit()

    def op_length(self):
        self.push(len(self.pop()))

    def op_get(self):
        k, a = self.pop(), self.pop()
        try:
            v = a[str(k)] if isinstance(a, dict) else a[k]
        except (LookupError, TypeError):
            raise PSError("get: undefined %r" % (k,))
        self.push(ord(v) if isinstance(a, PStr) else v)

    def op_aload(self):
        a = self.pop()
        self.push(*a)
        self.push(a)

    def op_showpage(self):
        pass

    op_flush = op_showpage

    def op_save(self):
        self.push(("save", len(self.gstack)))
        self.gstack.append(self.gs.copy())

    def op_restore(self):
        s = self.pop()
        if not (isinstance(s, tuple) and s[0] == "save") or s[1] >= len(self.gstack):
            raise PSError("invalidrestore")
        self.gs = self.gstack[s[1]]
        del self.gstack[s[1]:]

    # -- graphics state
    def op_gsave(self):
        self.gstack.append(self.gs.copy())

    def op_grestore(self):
        if self.gstack:
            self.gs = self.gstack.pop()
        else:
            self.gs = GS()

    def op_setgray(self):
        v = min(1.0, max(0.0, self.num()))
        self.gs.rgb = (v, v, v)

    def op_setrgbcolor(self):
        self.gs.rgb = tuple(min(1.0, max(0.0, float(v))) for v in self.nums(3))

    def op_currentgray(self):
        r, g, b = self.gs.rgb
        self.push(r if r == g == b else 0.3 * r + 0.59 * g + 0.11 * b)

    def op_currentrgbcolor(self):
        self.push(*self.gs.rgb)

    def op_setlinewidth(self):
        self.gs.width = self.num()

    def op_currentlinewidth(self):
        self.push(self.gs.width)

    def op_setdash(self):
        off, a = self.num(), self.pop()
        if not isinstance(a, list) or any(isinstance(x, bool) or not isinstance(x, (int, float)) or x < 0 for x in a) or a and not any(a):
            raise PSError("setdash: rangecheck %r" % (a,))
        self.gs.dash = (tuple(a), off)

    def op_setlinejoin(self):
        self.num()

    op_setlinecap = op_setmiterlimit = op_setflat = op_setlinejoin

    def op_translate(self):
        x, y = self.nums(2)
        self.gs.ctm = mul((1, 0, 0, 1, x, y), self.gs.ctm)

    def op_scale(self):
        x, y = self.nums(2)
        self.gs.ctm = mul((x, 0, 0, y, 0, 0), self.gs.ctm)

    def op_rotate(self):
        a = math.radians(self.num())
        self.gs.ctm = mul((math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0), self.gs.ctm)

    def op_concat(self):
        self.gs.ctm = mul(tuple(self.pop()), self.gs.ctm)

    # -- paths
    def op_newpath(self):
        g = self.gs
        g.path, g.cur, g.start = [], None, None

    def _to(self, p, op):
        g = self.gs
        if op == "m":
            if g.path and g.path[-1][0] == "m":
                g.path = g.path[:-1]
            g.path = g.path + [("m", p)]
            g.start = p
        else:
            if g.cur is None:
                raise PSError("nocurrentpoint")
            if not g.path or g.path[-1][0] == "c":
                g.path = g.path + [("m", g.cur)]
                g.start = g.cur
            g.path = g.path + [("l", p)]
        g.cur = p

    def op_moveto(self):
        self._to(app(self.gs.ctm, *self.nums(2)), "m")

    def op_lineto(self):
        self._to(app(self.gs.ctm, *self.nums(2)), "l")

    def _rel(self, op):
        x, y = self.nums(2)
        g = self.gs
        if g.cur is None:
            raise PSError("nocurrentpoint")
        a, b, c, d, _, _ = g.ctm
        self._to((g.cur[0] + a * x + c * y, g.cur[1] + b * x + d * y), op)

    def op_rmoveto(self):
        self._rel("m")

    def op_rlineto(self):
        self._rel("l")

    def op_closepath(self):
        g = self.gs
        if g.cur is not None and g.path and g.path[-1][0] != "c":
            g.path = g.path + [("c",)]
            g.cur = g.start

    def op_curveto(self):
        v = self.nums(6)
        g = self.gs
        if g.cur is None:
            raise PSError("nocurrentpoint")
        p = [app(g.ctm, *v[i:i + 2]) for i in (0, 2, 4)]
        g.path = g.path + [("b",) + tuple(p)]
        g.cur = p[2]

    def _arc(self, sign):
        x, y, r, a, b = self.nums(5)
        g = self.gs
        s = app(g.ctm, x + r * math.cos(math.radians(a)), y + r * math.sin(math.radians(a)))
        if g.cur is None:
            self._to(s, "m")
        elif math.dist(s, g.cur) > 1e-9 * (1 + abs(s[0]) + abs(s[1])):
            self._to(s, "l")
        g.path = g.path + [("a", app(g.ctm, x, y), r * math.sqrt(abs(g.ctm[0] * g.ctm[3] - g.ctm[1] * g.ctm[2])), a, b, sign)]
        g.cur = app(g.ctm, x + r * math.cos(math.radians(b)), y + r * math.sin(math.radians(b)))

    def op_arc(self):
        self._arc(1)

    def op_arcn(self):
        self._arc(-1)

    def op_arct(self):
        x1, y1, x2, y2, r = self.nums(5)
        g = self.gs
        if g.cur is None:
            raise PSError("nocurrentpoint")
        p1, p2 = app(g.ctm, x1, y1), app(g.ctm, x2, y2)
        # the tangent points, for the current point after the arc
        x0, y0 = app(inv(g.ctm), *g.cur)
        d0, d2 = (x0 - x1, y0 - y1), (x2 - x1, y2 - y1)
        l0, l2 = math.hypot(*d0), math.hypot(*d2)
        cross = d0[0] * d2[1] - d0[1] * d2[0]
        g.path = g.path + [("t", p1, p2, r * math.sqrt(abs(g.ctm[0] * g.ctm[3] - g.ctm[1] * g.ctm[2])))]
        if not l0 or not l2 or abs(cross) < 1e-9 * l0 * l2:
            g.cur = p1
            return [x1, y1, x1, y1]
        cosv = (d0[0] * d2[0] + d0[1] * d2[1]) / (l0 * l2)
        t = r * (1 + cosv) * l0 * l2 / abs(cross)     # r / tan(half the angle)
        a = (x1 + d0[0] / l0 * t, y1 + d0[1] / l0 * t)
        b = (x1 + d2[0] / l2 * t, y1 + d2[1] / l2 * t)
        g.cur = app(g.ctm, *b)
        return [*a, *b]

    def op_arcto(self):
        self.push(*self.op_arct())

    def op_currentpoint(self):
        g = self.gs
        if g.cur is None:
            raise PSError("nocurrentpoint")
        self.push(*app(inv(g.ctm), *g.cur))

    def op_flattenpath(self):
        pass

    def op_pathbbox(self):
        g = self.gs
        pts = []
        for s in g.path:
            if s[0] in "mlb":
                pts += s[1:]
            elif s[0] != "c":
                raise Unsupported("pathbbox of an arc")
        if not pts:
            raise PSError("nocurrentpoint")
        m = inv(g.ctm)
        pts = [app(m, *p) for p in pts]
        self.push(min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))

    # -- painting
    def _path(self):
        p = list(self.gs.path)
        while p and p[-1][0] == "m" and len(p) > 1:
            p.pop()
        return p

    def _ctm_scale(self):
        c = self.gs.ctm
        return math.sqrt(abs(c[0] * c[3] - c[1] * c[2]))

    def op_fill(self):
        p = self._path()
        if p:
            self.painted.append({"k": "fill", "path": p, "rgb": self.gs.rgb})
        self.op_newpath()

    op_eofill = op_fill

    def op_stroke(self):
        p = self._path()
        if p:
            k = self._ctm_scale()
            self.painted.append({"k": "stroke", "path": p, "rgb": self.gs.rgb, "width": self.gs.width * k,
                                 "dash": (tuple(x * k for x in self.gs.dash[0]), self.gs.dash[1] * k)})
        self.op_newpath()

    def op_rectfill(self):
        x, y, w, h = self.nums(4)
        g = self.gs
        self.painted.append({"k": "fill", "rgb": g.rgb, "path": [("m", app(g.ctm, x, y)), ("l", app(g.ctm, x + w, y)),
                                                                ("l", app(g.ctm, x + w, y + h)), ("l", app(g.ctm, x, y + h)), ("c",)]})

    # -- text
    def op_findfont(self):
        k = self.pop()
        if not isinstance(k, Lit):
            raise PSError("findfont: typecheck %r" % (k,))
        self.push(("font", str(k), 1))

    def op_scalefont(self):
        n, f = self.num(), self.pop()
        if not (isinstance(f, tuple) and f[0] == "font"):
            raise PSError("scalefont: typecheck")
        self.push(("font", f[1], f[2] * n))

    def op_setfont(self):
        f = self.pop()
        if not (isinstance(f, tuple) and f[0] == "font"):
            raise PSError("setfont: typecheck")
        self.gs.font = f

    def op_selectfont(self):
        n, k = self.num(), self.pop()
        self.gs.font = ("font", str(k), n)

    def _text(self):
        s, g = self.pop(), self.gs
        if not isinstance(s, PStr):
            raise PSError("typecheck: %r is not a string" % (s,))
        if g.font is None:
            raise PSError("invalidfont")
        return s, g

    def op_stringwidth(self):
        s, g = self._text()
        self.push(len(s) * g.font[2] * ADVANCE, 0)

    def op_charpath(self):
        self.pop()
        s, g = self._text()
        if g.cur is None:
            raise PSError("nocurrentpoint")
        x, y = app(inv(g.ctm), *g.cur)
        w, h = len(s) * g.font[2] * ADVANCE, g.font[2] * HEIGHT
        if s:
            pts = [app(g.ctm, *p) for p in ((x, y), (x + w, y), (x + w, y + h), (x, y + h))]
            p = [q for q in g.path]
            if p and p[-1][0] == "m":
                p.pop()
            g.path = p + [("m", pts[0])] + [("l", q) for q in pts[1:]] + [("c",)]
        g.cur = app(g.ctm, x + w, y)

    def op_show(self):
        s, g = self._text()
        if g.cur is None:
            raise PSError("nocurrentpoint")
        self.painted.append({"k": "text", "text": str(s), "font": g.font[1], "size": g.font[2] * self._ctm_scale(), "at": g.cur, "rgb": g.rgb})
        x, y = app(inv(g.ctm), *g.cur)
        self._to(app(g.ctm, x + len(s) * g.font[2] * ADVANCE, y), "m")

    # -- images
    def _image(self, ncomp):
        src = self.pop()
        m, bits = self.pop(), int(self.num())
        w, h = [int(v) for v in self.nums(2)]
        if bits != 8:
            raise Unsupported("image with %d bits" % bits)
        if not isinstance(m, list) or len(m) != 6:
            raise PSError("image: no matrix")
        need, data = w * h * ncomp, b""
        while len(data) < need:
            if isinstance(src, PStr):
                d = src
            else:
                self.call(src)
                d = self.pop()
            if not isinstance(d, PStr):
                raise PSError("image: data is not a string")
            if not d:
                break
            data += d.encode("latin-1")
        ctm = mul(inv(tuple(m)), self.gs.ctm)
        self.painted.append({"k": "image", "w": w, "h": h, "n": ncomp, "data": data[:need], "complete": len(data) >= need,
                             "corners": [app(ctm, *p) for p in ((0, 0), (w, 0), (0, h))]})

    def op_image(self):
        self._image(1)

    def op_colorimage(self):
        n, multi = int(self.num()), self.pop()
        if multi is not False:
            raise Unsupported("several image sources")
        self._image(n)


PSOPS = set("""arcto array astore bitshift clip clippath currentflat currentfont currentmatrix cvs cvn cvlit definefont dtransform eoclip
 erasepage execform getinterval grestoreall gstate imagemask initclip initgraphics initmatrix itransform kshow makefont matrix
 packedarray put putinterval rand rcurveto reversepath search sethsbcolor setcmykcolor setcolor setcolorspace setmatrix setpagedevice
 strokepath string transform type undef ustroke where xor xshow yshow ashow awidthshow widthshow glyphshow rectstroke rectclip
 setbbox sethalftone settransfer setstrokeadjust store known xcheck << >> pstack print == = stack quit stop stopped countdictstack""".split())


def interpret(text):
    return Interp(text).run()
