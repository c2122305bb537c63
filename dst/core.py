"""Simulated world: event log, clock, scheduler, step budget.  One World = one execution."""
import hashlib
import sys
import threading


class Violation(Exception):
    """A property was observed to be broken.  cls is stable under shrinking."""

    def __init__(self, cls, detail=""):
        super().__init__(cls, detail)
        self.cls = cls
        self.detail = detail


class Invalid(Exception):
    """The scenario itself makes no sense (only arises while shrinking)."""


class ProcessKilled(BaseException):
    """Injected crash of the simulated process."""


class StepLimit(BaseException):
    """The code under test did not finish within its step budget."""


class ThreadAbort(BaseException):
    """Unwinds the other simulated threads once a run is over."""


DEFAULT_BUDGET = 400000


class Clock:
    def __init__(self, now=1.0e9, tick=0.0):
        self.now = now
        self.mono = 5000.0
        self.tick = tick
        self.reads = 0
        self.forward = 0.0

    def advance(self, dt):
        self.now += dt
        if dt > 0:
            self.mono += dt
            self.forward += dt

    def jump(self, dt):
        """Step of the wall clock only (NTP, administrator)."""
        self.now += dt

    def time(self):
        self.reads += 1
        if self.tick:
            self.advance(self.tick)
        return self.now

    def monotonic(self):
        self.reads += 1
        if self.tick:
            self.advance(self.tick)
        return self.mono


class Sched:
    """Runs clients as real threads, exactly one at a time; the scenario decides every switch."""

    def __init__(self, world):
        self.w = world
        self.active = False
        self.lines = True
        self.step = 0
        self.switches = 0
        self.trace = hashlib.blake2b(digest_size=8)

    def run(self, clients, preempt=(), lines=True):
        """clients: list of zero-argument callables.  Returns list of ("ok", value) / ("exc", exception).
        preempt: [[step, target], ...]; at global step number `step` control moves to runnable[target % n]."""
        self.plan = {}
        for s, t in preempt:
            self.plan[int(s)] = int(t)
        self.lines = lines
        self.step = 0
        n = len(clients)
        self.done = [False] * n
        self.results = [None] * n
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.finished = threading.Semaphore(0)
        self.abort = False
        self.cur = 0
        self.budgets = [DEFAULT_BUDGET] * n

        def body(i, fn):
            self.gates[i].acquire()
            try:
                if self.abort:
                    raise ThreadAbort()
                self.results[i] = ("ok", fn())
            except ThreadAbort:
                self.results[i] = ("aborted", None)
            except BaseException as e:
                e.__traceback__ = None
                self.results[i] = ("exc", e)
            self.done[i] = True
            if not self.abort:
                runnable = [j for j in range(n) if not self.done[j]]
                if runnable:
                    self.cur = runnable[0]
                    self.gates[self.cur].release()
                    return
                self.finished.release()
            else:
                self.finished.release()

        threads = [threading.Thread(target=body, args=(i, fn), daemon=True) for i, fn in enumerate(clients)]
        for t in threads:
            t.start()
        self.active = True
        self.gates[0].release()
        self.finished.acquire()
        self.active = False
        for t in threads:
            if self.done[threads.index(t)]:
                t.join()
        return self.results

    def point(self, what=None):
        """A possible pre-emption point, called by the running client."""
        if not self.active:
            return
        self.step += 1
        t = self.plan.get(self.step)
        if t is None:
            return
        me = self.cur
        runnable = [j for j in range(len(self.done)) if not self.done[j]]
        nxt = runnable[t % len(runnable)]
        if nxt == me:
            return
        self.switches += 1
        self.trace.update(b"%d>%d@%d;" % (me, nxt, self.step))
        self.cur = nxt
        self.gates[nxt].release()
        self.gates[me].acquire()
        if self.abort:
            raise ThreadAbort()


class World:
    def __init__(self, trace=False):
        self.h = hashlib.blake2b(digest_size=8)
        self.nev = 0
        self.keep = [] if trace else None
        self.budget = DEFAULT_BUDGET
        self.clock = Clock()
        self.sched = Sched(self)
        self.lines = 0
        self.limit = None
        self.total_lines = 0
        self.fired = {}          # fault kind -> times it actually happened
        self.fired_by = {}       # client -> fault kinds that hit it
        self.probes = {}         # rare condition -> times hit
        self.acks = 0            # operations that completed normally
        self.fs = None
        self.procs = None

    # -- logging: never draws randomness, never reads a clock
    def ev(self, *a):
        self.nev += 1
        s = repr(a)
        self.h.update(s.encode("utf8", "surrogatepass"))
        if self.keep is not None and len(self.keep) < 4000:
            self.keep.append(s)

    def fire(self, kind):
        if self.sched.active:
            self.fired_by.setdefault(self.sched.cur, []).append(kind)
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- bounded progress
    def on_line(self):
        self.lines += 1
        if self.limit is not None and self.lines > self.limit:
            self.limit = None
            raise StepLimit()
        s = self.sched
        if s.active and s.lines:
            s.point()

    def call(self, fn, *a, budget=None, **k):
        """Run one API call.  Returns ("ok", value) or ("exc", exception)."""
        if not self.sched.active:
            self.limit = self.lines + (budget or self.budget)
        try:
            r = ("ok", fn(*a, **k))
            self.acks += 1
        except StepLimit:
            raise Violation("no-progress", "%s did not finish within %d steps" % (getattr(fn, "__qualname__", fn), budget or self.budget))
        except (Violation, Invalid):
            raise
        except Exception as e:
            e.__traceback__ = None
            e.__context__ = e.__cause__ = None
            r = ("exc", e)
        finally:
            if not self.sched.active:
                self.limit = None
        self.ev("call", getattr(fn, "__qualname__", type(fn).__name__), r[0], type(r[1]).__name__ if r[0] == "exc" else "")
        return r

    def must(self, what, fn, *a, **k):
        """Run one API call that has to succeed."""
        st, v = self.call(fn, *a, **k)
        if st == "exc":
            raise Violation("unexpected-error:" + what, "%s: %s" % (type(v).__name__, v))
        return v

    def digest(self):
        return self.h.hexdigest()


CURRENT = None
PREFIX = None
TOOL = 3


def set_world(w):
    global CURRENT
    CURRENT = w


def _line(code, line):
    if not code.co_filename.startswith(PREFIX):
        return sys.monitoring.DISABLE
    w = CURRENT
    if w is not None:
        w.on_line()


def install_monitor(prefix):
    global PREFIX
    PREFIX = prefix
    m = sys.monitoring
    m.use_tool_id(TOOL, "dst")
    m.register_callback(TOOL, m.events.LINE, _line)
    m.set_events(TOOL, m.events.LINE)


def expect(cond, cls, detail=""):
    if not cond:
        raise Violation(cls, detail() if callable(detail) else detail)


class guard:
    """Code under test handed back something the oracle cannot even inspect: that is a violation, not a harness error."""

    def __init__(self, cls):
        self.cls = cls

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, Exception) and not issubclass(t, (Violation, Invalid)):
            raise Violation(self.cls, "malformed result: %s: %s" % (t.__name__, v)) from None
        return False
