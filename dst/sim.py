"""The simulator: one process, one clock, one scheduler, all faults.

Everything nondeterministic that the code under test can see goes through the
single object SIM.  A simulated run is a pure function of its spec: SIM draws
nothing from the outside.

Seams (each has a per-step ordinal, so that a fault is placed as
"the n-th backend operation of step i"):

  backend  static operations of the computing backends (kron, dot, eye, ...)
  call     calls from library code into numpy/scipy (array allocations)
  line     every line of library code (interrupts, pre-emption)
  ctor     construction of a user supplied gate
  fs       every file operation (dst/simfs.py)
"""
import _thread
import hashlib
import os
import sys
import time as _time

REAL_ALLOCATE = _thread.allocate_lock
REAL_START = _thread.start_new_thread
REAL_IDENT = _thread.get_ident
REAL = {k: getattr(_time, k) for k in (
    "time", "perf_counter", "monotonic", "process_time", "thread_time", "sleep",
    "time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns", "thread_time_ns",
    "gmtime", "localtime", "strftime", "ctime")}

TOOL = 3


class SimKill(BaseException):
    """The simulated process is killed at this instant."""


class Deadlock(BaseException):
    """No task can run."""


class StepLimit(BaseException):
    """The run does not get anywhere."""


class DeviceError(RuntimeError):
    """What a computing device reports when an operation fails."""


EXCEPTIONS = {
    "MemoryError": lambda: MemoryError("injected: out of memory"),
    "DeviceError": lambda: DeviceError("injected: device operation failed"),
    "ValueError": lambda: ValueError("injected: rejected value"),
    "TypeError": lambda: TypeError("injected: bad type"),
    "ZeroDivisionError": lambda: ZeroDivisionError("injected"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "StopIteration": lambda: StopIteration("injected"),
    "IndexError": lambda: IndexError("injected: index"),
    "KeyError": lambda: KeyError("injected: key"),
    "AssertionError": lambda: AssertionError("injected"),
    "AttributeError": lambda: AttributeError("injected"),
    "FloatingPointError": lambda: FloatingPointError("injected"),
    "OSError": lambda: OSError(5, "injected: input/output error"),
    "BrokenPipeError": lambda: BrokenPipeError(32, "injected: broken pipe"),
    "MarkupError": lambda: DeviceError("injected: [/device 0] launch failed [bold]"),
    "RecursionError": lambda: RecursionError("injected"),
    "Exception": lambda: Exception("injected"),
}


class Ctx:
    """Counters and fault plan of one task's current step."""

    __slots__ = ("name", "counts", "plan", "steps", "proc", "fired")

    def __init__(self, name, proc=None):
        self.name = name
        self.counts = {}
        self.plan = {}
        self.steps = 0
        self.proc = proc
        self.fired = []


class Sim:
    def __init__(self):
        self.reset()

    def reset(self):
        self.on = False
        self.now = 1000.0          # seconds that really passed (monotonic)
        self.cpu = 0.0             # seconds this process computed
        self.wall_offset = 1.7e9   # wall clock = now + offset; steps with jumps
        self.ctx = Ctx("main")
        self.sched = None
        self.lines = self.calls = self.fine = False
        self.fired = {}            # fault kind -> times it really fired
        self.log = []
        self.total_steps = 0
        self.step_limit = 3_000_000
        self.pid = None
        self.probes = {}
        self.on_time = None        # property hook: told about every advance

    # -- clock ---------------------------------------------------------
    def advance(self, seconds, cpu=False):
        self.now += seconds
        if cpu:
            self.cpu += seconds
        if self.on_time:
            self.on_time(seconds)

    def wall(self):
        return self.now + self.wall_offset

    # -- bookkeeping ---------------------------------------------------
    def note(self, *what):
        self.log.append(what)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def digest(self):
        return hashlib.sha256(repr(self.log).encode()).hexdigest()[:16]

    def begin_step(self, plan):
        """Start of one workload step of the current task."""
        c = self.ctx
        c.counts = {}
        c.fired = []
        c.plan = {}
        for f in plan or ():
            for j in range(f.get("times", 1)):      # a device that stays broken
                c.plan[(f["at"][0], f["at"][1] + j)] = f

    def end_step(self):
        c = self.ctx
        counts, fired = c.counts, c.fired
        c.counts, c.plan, c.fired = {}, {}, []
        return counts, fired

    # -- seams -----------------------------------------------------------
    def seam(self, kind, label):
        """Called before the operation; returns the fault planned for it."""
        c = self.ctx
        n = c.counts.get(kind, 0) + 1
        c.counts[kind] = n
        self.total_steps += 1
        if self.total_steps > self.step_limit:
            raise StepLimit(f"{self.step_limit} steps")
        self.log.append((c.name, kind, label))
        f = c.plan.get((kind, n))
        if self.sched is not None:
            self.sched.yield_point(kind)
        if f is not None and f.get("when", "before") == "before":
            self.act(f, kind)
        return f

    def seam_after(self, f, kind):
        if f is not None and f.get("when", "before") == "after":
            self.act(f, kind)

    def act(self, f, kind):
        do = f["do"]
        name = f"{kind}:{do}" + (f":{f['exc']}" if "exc" in f else "") + (f":{f['err']}" if "err" in f else "") + (
            ":after" if f.get("when") == "after" else "")
        self.fired[name] = self.fired.get(name, 0) + 1
        self.ctx.fired.append(f)
        self.log.append((self.ctx.name, "fault", name))
        if do == "raise":
            raise EXCEPTIONS[f["exc"]]()
        if do == "interrupt":
            raise KeyboardInterrupt("injected")
        if do == "kill":
            if self.ctx.proc is not None:
                self.ctx.proc.kill()
            raise SimKill("killed")
        if do == "stall":
            self.advance(f["secs"])
        elif do == "compute":
            self.advance(f["secs"], cpu=True)
        elif do == "clock":
            self.wall_offset += f["jump"]
        elif do in ("errno", "short", "full", "tornkill"):
            return                         # carried out by the file system
        elif do == "both":
            self.wall_offset += f["jump"]
            self.advance(f["secs"])
        else:
            raise AssertionError(f"unknown fault {f}")


SIM = Sim()


# ---------------------------------------------------------------- monitoring
_lib_codes = []


def register_code(code):
    """All code objects of a library file, so that their lines are ours."""
    stack = [code]
    while stack:
        c = stack.pop()
        _lib_codes.append(c)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                stack.append(k)


def _on_line(code, line):
    s = SIM
    if not s.on or not s.lines:
        return
    c = s.ctx
    if s.sched is not None and REAL_IDENT() != s.sched.current_ident:
        return
    n = c.counts.get("line", 0) + 1
    c.counts["line"] = n
    s.total_steps += 1
    if s.total_steps > s.step_limit:
        raise StepLimit(f"{s.step_limit} steps")
    if s.sched is not None:
        s.sched.yield_point("line", (code.co_name, line))
    f = c.plan.get(("line", n))
    if f is not None:
        s.log.append((c.name, "at", code.co_name, line))
        s.act(f, "line")


def _numeric(fn, arg0):
    m = getattr(fn, "__module__", None)
    if isinstance(m, str):
        return m.startswith("numpy") or m.startswith("scipy")
    t = type(fn).__module__
    if t.startswith("numpy"):
        return True
    t = getattr(fn, "__objclass__", None)
    if t is not None:
        return t.__module__.startswith(("numpy", "scipy"))
    owner = getattr(fn, "__self__", None)
    if owner is not None:
        return type(owner).__module__.startswith(("numpy", "scipy"))
    return False


def _on_call(code, offset, fn, arg0):
    s = SIM
    if not s.on:
        return
    if s.sched is not None and REAL_IDENT() != s.sched.current_ident:
        return
    if s.fine and s.sched is not None:
        s.total_steps += 1
        s.sched.yield_point("precall", (code.co_name, -offset))
    if not s.calls or not _numeric(fn, arg0):
        return
    c = s.ctx
    n = c.counts.get("call", 0) + 1
    c.counts["call"] = n
    s.total_steps += 1
    f = c.plan.get(("call", n))
    if f is not None:
        s.log.append((c.name, "at-call", code.co_name, getattr(fn, "__name__", "?")))
        s.act(f, "call")


def _on_c_return(code, offset, fn, arg0):
    """Back from a call into C: where the interpreter may change threads in
    the middle of a line."""
    s = SIM
    if not s.on or not s.fine or s.sched is None or REAL_IDENT() != s.sched.current_ident:
        return
    s.total_steps += 1
    s.sched.yield_point("postcall", (code.co_name, -offset))


_monitoring = {"tool": False, "events": 0}


def monitor(lines=False, calls=False, fine=False):
    """fine: callers may also be pre-empted around every call within a line."""
    m = sys.monitoring
    if not _monitoring["tool"]:
        m.use_tool_id(TOOL, "dst")
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.register_callback(TOOL, m.events.CALL, _on_call)
        m.register_callback(TOOL, m.events.C_RETURN, _on_c_return)
        _monitoring["tool"] = True
    ev = (m.events.LINE if lines else 0) | (m.events.CALL if calls or fine else 0)
    if ev != _monitoring["events"]:
        for c in _lib_codes:
            m.set_local_events(TOOL, c, ev)
        _monitoring["events"] = ev
    SIM.lines, SIM.calls, SIM.fine = lines, calls, fine


# ----------------------------------------------------------------- scheduler
class Task:
    def __init__(self, index, name, fn, proc=None):
        self.index = index
        self.name = name
        self.fn = fn
        self.ctx = Ctx(name, proc)
        self.gate = REAL_ALLOCATE()
        self.gate.acquire()
        self.done = False
        self.blocked_on = None
        self.ident = None
        self.error = None
        self.started = False

    @property
    def runnable(self):
        return not self.done and self.blocked_on is None


class Scheduler:
    """Baton passing between real threads.  Exactly one runs; who is next is
    decided by the spec: either an explicit list of switches
    [task, step of that task, next task] or a seeded coin."""

    def __init__(self, tasks, policy, on_switch=None):
        self.tasks = tasks
        self.explicit = None
        self.rng = None
        if "switches" in policy:
            self.explicit = {(a, b): c for a, b, c in policy["switches"]}
        else:
            import random
            self.rng = random.Random(policy["seed"])
            self.p = policy["p"]
            self.kinds = policy.get("kinds")
            self.budget = policy.get("max", 1 << 30)
        self.first = policy.get("first", 0)
        self.switches = []
        self.current = None
        self.current_ident = None
        self.finished = REAL_ALLOCATE()
        self.finished.acquire()
        self.on_switch = on_switch
        self.failure = None
        self.places = []

    def run(self):
        if not self.tasks:
            return
        SIM.sched = self
        saved = SIM.ctx
        first = self.tasks[self.first % len(self.tasks)]
        self._activate(first)
        self._release(first)
        self.finished.acquire()
        SIM.sched = None
        SIM.ctx = saved
        if self.on_switch:
            self.on_switch(None)
        if self.failure:
            raise self.failure

    def _body(self, t):
        t.gate.acquire()
        self.current_ident = t.ident = REAL_IDENT()
        try:
            t.fn()
        except SimKill:
            t.error = "killed"
        except (Deadlock, StepLimit) as e:
            self.failure = self.failure or e
        except BaseException as e:  # noqa: B036 - harness boundary
            t.error = e
        t.done = True
        nxt = self._next_after(t)
        if nxt is None:
            if any(not x.done for x in self.tasks):
                self.failure = self.failure or Deadlock(
                    "deadlock: " + ", ".join(f"{x.name} waits" for x in self.tasks if not x.done))
            self.finished.release()
            return
        self._activate(nxt)
        self._release(nxt)

    def _next_after(self, t):
        for x in self.tasks:
            if x.runnable and x is not t:
                return x
        return None

    def _activate(self, t):
        self.current = t
        SIM.ctx = t.ctx
        self.current_ident = t.ident
        if self.on_switch:
            self.on_switch(t)

    def _release(self, t):
        if not t.started:
            t.started = True
            REAL_START(self._body, (t,))
        t.gate.release()

    def _switch(self, t, nxt):
        self._activate(nxt)
        self._release(nxt)
        t.gate.acquire()
        # baton is back: _activate(t) was done by whoever released us

    def yield_point(self, kind, place=None):
        t = self.current
        t.ctx.steps += 1
        n = t.ctx.steps
        if self.explicit is not None:
            to = self.explicit.get((t.index, n))
            if to is None or to >= len(self.tasks):
                return
            nxt = self.tasks[to]
        else:
            if self.kinds and kind not in self.kinds:
                return
            if self.budget <= 0 or self.rng.random() >= self.p:
                return
            others = [x for x in self.tasks if x.runnable and x is not t]
            if not others:
                return
            nxt = self.rng.choice(others)
        if nxt is t or not nxt.runnable:
            return
        if self.explicit is None:
            self.budget -= 1
        self.switches.append([t.index, n, nxt.index])
        self.places.append((t.index, kind, place, nxt.index))
        SIM.log.append((t.name, "switch", nxt.name, kind, place))
        self._switch(t, nxt)

    # used by the lock replacement
    def block(self, lock):
        t = self.current
        t.blocked_on = lock
        nxt = self._next_after(t)
        if nxt is None:
            t.blocked_on = None
            raise Deadlock(f"deadlock: {t.name} waits for a lock nobody will release")
        SIM.log.append((t.name, "blocked"))
        self._switch(t, nxt)

    def unblock(self, lock):
        for x in self.tasks:
            if x.blocked_on is lock:
                x.blocked_on = None


class SimLock:
    """Stands in for threading.Lock/RLock in code that runs under SIM."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    @staticmethod
    def _me():
        s = SIM.sched
        return s.current.index + 1 if s is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = SIM.sched
        if s is not None and SIM.on:
            s.yield_point("lock")
        if self.owner == me and self.reentrant:
            self.depth += 1
            return True
        while self.depth:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                SIM.advance(timeout)
                return False
            if s is None:
                raise Deadlock("deadlock: a lock is taken twice by one caller")
            s.block(self)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            if SIM.sched is not None:
                SIM.sched.unblock(self)

    def locked(self):
        return bool(self.depth)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return bool(self.depth) and self.owner == self._me()

    def _release_save(self):
        d, self.depth = self.depth, 0
        o, self.owner = self.owner, None
        if SIM.sched is not None:
            SIM.sched.unblock(self)
        return d, o

    def _acquire_restore(self, st):
        self.acquire()
        self.depth, self.owner = st[0], self._me()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


class SimRLock(SimLock):
    reentrant = True


# ----------------------------------------------------------- process environment
_urandom_state = [0]


def _urandom(n):
    out = b""
    while len(out) < n:
        _urandom_state[0] += 1
        out += hashlib.sha256(b"urandom%d" % _urandom_state[0]).digest()
    return out[:n]


def install_environment():
    """Clock, locks, process id and entropy are the simulator's from here on.
    Called once, before any library module is loaded."""
    import datetime
    import threading
    import random

    t = _time
    t.time = lambda: SIM.wall()
    t.time_ns = lambda: int(SIM.wall() * 1e9)
    t.perf_counter = lambda: SIM.now - 900.0
    t.perf_counter_ns = lambda: int((SIM.now - 900.0) * 1e9)
    t.monotonic = lambda: SIM.now
    t.monotonic_ns = lambda: int(SIM.now * 1e9)
    t.process_time = lambda: SIM.cpu
    t.process_time_ns = lambda: int(SIM.cpu * 1e9)
    t.thread_time = lambda: SIM.cpu
    t.thread_time_ns = lambda: int(SIM.cpu * 1e9)
    if hasattr(t, "clock_gettime"):
        def clock_gettime(k):
            if k == getattr(t, "CLOCK_REALTIME", 0):
                return SIM.wall()
            if k in (getattr(t, "CLOCK_PROCESS_CPUTIME_ID", -1), getattr(t, "CLOCK_THREAD_CPUTIME_ID", -1)):
                return SIM.cpu
            return SIM.now
        t.clock_gettime = clock_gettime
        t.clock_gettime_ns = lambda k: int(clock_gettime(k) * 1e9)

    def sleep(s):
        SIM.advance(s)
        if SIM.sched is not None and SIM.on:
            SIM.sched.yield_point("sleep")
    t.sleep = sleep

    def wrap(f):
        return lambda secs=None: f(SIM.wall() if secs is None else secs)
    timeit = sys.modules.get("timeit")
    if timeit is not None:
        timeit.default_timer = t.perf_counter
    t.gmtime = wrap(REAL["gmtime"])
    t.localtime = wrap(REAL["localtime"])
    t.ctime = wrap(REAL["ctime"])
    t.strftime = lambda fmt, tup=None: REAL["strftime"](fmt, t.localtime() if tup is None else tup)

    rdate, rdt = datetime.date, datetime.datetime

    class SimDate(rdate):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(SIM.wall())

    class SimDateTime(rdt):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(SIM.wall(), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(SIM.wall())

        @classmethod
        def utcnow(cls):
            return rdt.utcfromtimestamp(SIM.wall())
    datetime.date = SimDate
    datetime.datetime = SimDateTime

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._RLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock

    real_pid = os.getpid
    os.getpid = lambda: SIM.pid if SIM.pid is not None else real_pid()
    os.urandom = _urandom
    random._urandom = _urandom


def fresh_entropy():
    import random
    import tempfile
    import numpy as np
    _urandom_state[0] = 0
    random.seed(12345)
    np.random.seed(12345)

    class Names:
        n = 0

        def __iter__(self):
            return self

        def __next__(self):
            Names.n += 1
            return f"tmp{Names.n:06d}"
    tempfile._name_sequence = Names()
