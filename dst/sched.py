"""Seeded cooperative scheduler for real Python threads.

Exactly one simulated thread runs at any time.  Control points are the LINE (or
INSTRUCTION) events of the code objects of the library under test plus the standard
library code that manipulates its shared objects (collections.UserDict).  At each control
point the scheduler may raise an injected exception in the running thread, evaluate
invariants, and hand the baton to another thread.  Every choice comes from the policy
object, which draws from the run's PRNG (or replays a recorded list), so a run is a pure
function of its specification.
"""

import _thread
import dis
import hashlib
import random
import sys
import threading
import time
import types

_real_allocate = _thread.allocate_lock
_real_rlock = threading.RLock
_real_start = _thread.start_new_thread
_real_sleep = time.sleep
_real_sentinel = threading._set_sentinel
get_ident = _thread.get_ident

MON = sys.monitoring
TOOL = 3


class SimStop(BaseException):
    """Unwinds simulated threads when a run is over (deadlock, step limit, violation)."""


class OpLimit(BaseException):
    """A single call used more control points than any correct call can need."""


FAULT_EXC = {
    "kbd": KeyboardInterrupt,
    "mem": MemoryError,
    "sysexit": SystemExit,
    "alarm": TimeoutError,  # a deadline set by the application (signal.alarm)
    "rec": RecursionError,
}


def is_abort(e):
    return isinstance(e, (KeyboardInterrupt, MemoryError, SystemExit)) or (type(e) in (TimeoutError, RecursionError) and e.args == ("injected",))


class Deadlock(BaseException):
    """A lock is waited for outside the simulation, where no other thread exists."""


class WouldBlock(BaseException):
    """A lock is held while the scheduler itself looks at shared objects."""


class SimThread(threading._DummyThread):
    """What threading.current_thread() gives inside a simulated thread; gone when the thread ends."""

    def __init__(self, name):
        super().__init__()
        self._name = name
        self._daemonic = False
        self._over = False

    def is_alive(self):
        return not self._over

    def end(self):
        self._over = True
        if threading._active.get(self._ident) is self:
            del threading._active[self._ident]


class STh:
    __slots__ = ("tid", "fn", "lock", "state", "ident", "opid", "evt", "wait", "deadline", "timed_out",
                 "in_cb", "prio", "exc", "active", "nest", "total", "root", "sentinel", "mark", "seq", "who", "waited")

    def __init__(self, tid, fn, root=None, who=None):
        self.tid = tid
        self.waited = False
        self.who = tid if who is None else who  # as owner of locks
        self.fn = fn
        self.root = tid if root is None else root  # the thread of the run that it works for
        self.sentinel = None
        self.mark = None
        self.seq = 0
        self.lock = _real_allocate()
        self.lock.acquire()
        self.state = "ready"
        self.ident = None
        self.opid = -1
        self.evt = 0
        self.wait = None
        self.deadline = None
        self.timed_out = False
        self.in_cb = False
        self.prio = 0
        self.exc = None
        self.active = False
        self.nest = 0
        self.total = 0


# ------------------------------------------------------------------ policies


class Policy:
    def start(self, sched):
        pass

    def added(self, sched, t):
        """The library started a thread."""

    def at_event(self, sched, t, store):
        """Return a tid to switch to, or None."""
        return None

    def pick(self, sched, t, cands, why):
        return min(cands)


class RandomPolicy(Policy):
    """Switch with probability p at every event (geometric gaps, one draw per switch)."""

    def __init__(self, rng, p, store_p=None, hot_p=None, names=()):
        self.rng = rng
        self.p = p
        self.store_p = store_p
        self.hot_p = hot_p
        self.names = frozenset(names)  # what the survey saw being written; lines that mention it are dwelt on
        self.gap = self._gap()

    def _gap(self):
        g = 0
        # inverse-transform sampling of a geometric distribution
        import math

        u = self.rng.random()
        g = int(math.log(max(u, 1e-300)) / math.log(1 - self.p)) if self.p < 1 else 0
        return min(g, 10**7)

    def at_event(self, sched, t, store):
        if self.names and sched.at and sched.codeset.mentions(*sched.at, self.names, sched.granularity) and self.rng.random() < self.hot_p:
            return self._other(sched, t)
        if store and self.store_p is not None:
            if self.rng.random() < self.store_p:
                return self._other(sched, t)
            return None
        if self.gap > 0:
            self.gap -= 1
            return None
        self.gap = self._gap()
        return self._other(sched, t)

    def _other(self, sched, t):
        c = [x.tid for x in sched.threads if x.state == "ready" and x is not t]
        if not c:
            return None
        return c[self.rng.randrange(len(c))]

    def pick(self, sched, t, cands, why):
        return cands[self.rng.randrange(len(cands))]


class PctPolicy(Policy):
    """Probabilistic concurrency testing: random priorities, d priority change points."""

    def __init__(self, rng, nthreads, d, horizon):
        self.rng = rng
        order = list(range(nthreads))
        rng.shuffle(order)
        self.prio = {tid: 1000 + i for i, tid in enumerate(order)}
        self.points = sorted(rng.randrange(max(1, horizon)) for _ in range(d))
        self.low = 0

    def added(self, sched, t):
        self.prio[t.tid] = self.rng.choice([-1000 - t.tid, 1000 + t.tid])

    def at_event(self, sched, t, store):
        if self.points and sched.steps >= self.points[0]:
            self.points.pop(0)
            self.low -= 1
            self.prio[t.tid] = self.low
            c = [x.tid for x in sched.threads if x.state == "ready" and x is not t]
            if c:
                return max(c, key=lambda i: self.prio[i])
        return None

    def pick(self, sched, t, cands, why):
        return max(cands, key=lambda i: self.prio[i])


class SerialPolicy(Policy):
    pass


class ReplayPolicy(Policy):
    """Replays recorded switches; anything not recorded takes the default."""

    def __init__(self, switches):
        self.sw = {}
        for tid, opid, evt, to, kind in switches:
            self.sw[(tid, opid, evt, kind)] = to

    def at_event(self, sched, t, store):
        to = self.sw.get((t.tid, t.opid, t.evt, "e"))
        if to is not None and to < len(sched.threads) and sched.threads[to].state == "ready" and to != t.tid:
            return to
        return None

    def pick(self, sched, t, cands, why):
        key = (t.tid, t.opid, t.evt, why) if t is not None else (-1, -1, 0, why)  # why: numbered, see Scheduler._next
        to = self.sw.get(key)
        return to if to in cands else min(cands)


# ------------------------------------------------------------------ code discovery

_STORE_OPS = {"STORE_GLOBAL", "STORE_ATTR", "STORE_SUBSCR", "STORE_DEREF", "STORE_SLICE",
              "DELETE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR"}


class CodeSet:
    """Code objects whose events are control points."""

    def __init__(self, prefixes, extra=()):
        self.prefixes = tuple(prefixes)
        self.codes = set()
        self.store_lines = {}
        self.store_offs = {}
        self.hot = {}
        self.gap = {}
        for c in extra:
            self._add(c)

    def wants(self, code):
        return code.co_filename.startswith(self.prefixes)

    def _add(self, code):
        if code in self.codes:
            return
        self.codes.add(code)
        for k in code.co_consts:
            if isinstance(k, types.CodeType):
                self._add(k)

    def scan_modules(self, names):
        for n in names:
            m = sys.modules.get(n)
            if m is not None:
                self._scan(vars(m), set())

    def _scan(self, ns, seen):
        if id(ns) in seen:
            return
        seen.add(id(ns))
        for v in list(ns.values()):
            self._scan_val(v, seen)

    def _scan_val(self, v, seen):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        f = getattr(v, "__wrapped__", None)
        if f is not None and f is not v and id(f) not in seen:
            seen.add(id(f))
            self._scan_val(f, seen)
        if isinstance(v, types.FunctionType):
            if self.wants(v.__code__):
                self._add(v.__code__)
            for cell in v.__closure__ or ():
                try:
                    cv = cell.cell_contents
                except ValueError:
                    continue
                if isinstance(cv, types.FunctionType) and id(cv) not in seen:
                    seen.add(id(cv))
                    self._scan_val(cv, seen)
        elif isinstance(v, property):
            for g in (v.fget, v.fset, v.fdel):
                if g is not None:
                    self._scan_val(g, seen)
        elif isinstance(v, type):
            if getattr(v, "__module__", "").startswith("pygmm"):
                self._scan(dict(vars(v)), seen)
                for b in v.__mro__:
                    if getattr(b, "__module__", "").startswith("pygmm") and id(b) not in seen:
                        seen.add(id(b))
                        self._scan(dict(vars(b)), seen)

    def mentions(self, code, pos, names, gran):
        """Whether one of the names is used at this position (a line, or an offset) or just before it."""
        if not isinstance(code, types.CodeType):
            return False
        k = (code, names, gran)
        s = self.hot.get(k)
        if s is None:
            s = self.hot[k] = set()
            if names & set(code.co_names + code.co_freevars + code.co_cellvars):
                line = nxt = None
                lines = []
                for ins in dis.get_instructions(code):
                    if ins.positions and ins.positions.lineno and ins.positions.lineno != line:
                        line = ins.positions.lineno
                        lines.append(line)
                    if gran == "instr":
                        if nxt:
                            s.add(ins.offset)
                            nxt = None
                        if ins.argval in names and isinstance(ins.argval, str):
                            s.add(ins.offset)
                            nxt = True
                    elif ins.argval in names and isinstance(ins.argval, str):
                        s.add(line)
                if gran != "instr":
                    for a, b in zip(lines, lines[1:]):
                        if a in s and b > a:
                            nxt = nxt or set()
                            nxt.add(b)
                    s |= nxt or set()
        return pos in s

    def in_gap(self, code, off):
        """Whether an instruction is in a handler of an exception but outside the handler's own cleanup.

        CPython never runs signal handlers there; an exception raised there all the same (as from a
        tracing function) would leave the handled exception, and all it refers to, on the thread."""
        s = self.gap.get(code)
        if s is None:
            s = self.gap[code] = set()
            table = dis._parse_exception_table(code)
            if table:
                ins = list(dis.get_instructions(code))
                nxt = {a.offset: b.offset for a, b in zip(ins, ins[1:])}
                by = {x.offset: x for x in ins}
                work = [(nxt[x.offset], 1) for x in ins if x.opname == "PUSH_EXC_INFO" and x.offset in nxt]
                seen = set()
                while work:
                    o, n = w = work.pop()
                    if w in seen or n > 5:
                        continue
                    seen.add(w)
                    x = by[o]
                    if not any(e.start <= o < e.end for e in table):
                        s.add(o)
                    if x.opname == "PUSH_EXC_INFO":
                        n += 1
                    if x.opname == "POP_EXCEPT":
                        n -= 1
                        if not n:
                            continue
                    if x.opcode in dis.hasjrel or x.opcode in dis.hasjabs:
                        work.append((x.argval, n))
                        if x.opname in ("JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"):
                            continue
                    if x.opname in ("RERAISE", "RAISE_VARARGS", "RETURN_VALUE", "RETURN_CONST") or o not in nxt:
                        continue
                    work.append((nxt[o], n))
        return off in s

    def stores(self, code):
        s = self.store_lines.get(code)
        if s is None:
            s = set()
            offs = set()
            line = None
            nxt = False
            for ins in dis.get_instructions(code):
                if ins.positions and ins.positions.lineno:
                    line = ins.positions.lineno
                if nxt:
                    offs.add(ins.offset)
                    nxt = False
                if ins.opname in _STORE_OPS:
                    s.add(line)
                    nxt = True
            self.store_lines[code] = s
            self.store_offs[code] = offs
        return s


# ------------------------------------------------------------------ scheduler

CURRENT = None  # the active scheduler of this process


class Scheduler:
    daemons = ()

    def __init__(self, policy, codeset, granularity="line", max_steps=400000, op_limit=60000, faults=None,
                 invariant=None, guide=None, replaying=False):
        self.policy = policy
        self.codeset = codeset
        self.granularity = granularity
        self.at = None  # the position of the event, for policies
        self.max_steps = max_steps
        self.op_limit = op_limit
        self.faults = dict(faults or {})  # (opid, evt) -> kind
        self.fired = []
        self.invariant = invariant
        self.guide = guide
        self.guided = 0
        self.replaying = replaying
        self.no_block = False
        self.trace = None
        self.marks = None  # of each call: the events in the outermost code of modules
        self.names = frozenset()  # for the trace: what the survey saw being written
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.steps = 0
        self.now = 0.0
        self.switches = []
        self.nswitch = 0
        self.stop = None  # reason
        self.done_lock = _real_allocate()
        self.done_lock.acquire()
        self.hash = hashlib.blake2b(digest_size=12)
        self.ilhash = hashlib.blake2b(digest_size=12)
        self.lock_waits = 0
        self.sleeps = 0
        self.sites = set()
        self.on_kill = None
        self.on_thread = None
        self.last_line = {}
        self.nmain = 0
        self.bgsteps = 0  # steps of background threads after the others have ended
        self.left = 0  # threads of the library that outlived the run
        self.dates = {}  # (opid, evt) -> thread that waits for that moment
        self.ints = {}  # (opid, evt) -> what the application does there (a signal handler or finalizer)
        self.on_int = None
        self.inted = []
        self.who0 = 0  # added to the lock identity of spawned threads (forked children)

    # -- monitoring ---------------------------------------------------------
    def install(self):
        global CURRENT
        CURRENT = self
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, "dst")
        ev = MON.events
        if self.granularity == "line":
            self._local = ev.LINE
            MON.register_callback(TOOL, ev.LINE, self._on_line)
        else:
            self._local = ev.INSTRUCTION
            MON.register_callback(TOOL, ev.INSTRUCTION, self._on_instr)
        MON.register_callback(TOOL, ev.PY_START, self._on_start)
        for c in self.codeset.codes:
            MON.set_local_events(TOOL, c, self._local)
        MON.set_events(TOOL, ev.PY_START)

    def uninstall(self):
        global CURRENT
        MON.set_events(TOOL, 0)
        for c in self.codeset.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
        MON.register_callback(TOOL, MON.events.PY_START, None)
        MON.free_tool_id(TOOL)
        CURRENT = None

    def _on_start(self, code, off):
        if code in self.codeset.codes:
            return MON.DISABLE
        if self.codeset.wants(code):
            self.codeset.codes.add(code)
            MON.set_local_events(TOOL, code, self._local)
        return MON.DISABLE

    def _on_line(self, code, line):
        t = self.by_ident.get(get_ident())
        if t is None or not t.active or t.in_cb:
            return
        # "store": the previous line executed by this thread wrote shared-looking state
        prev = self.last_line.get(t.tid)
        self.last_line[t.tid] = (code, line)
        store = prev is not None and prev[1] in self.codeset.stores(prev[0])
        self._event(t, code, line, store)

    def _on_instr(self, code, off):
        t = self.by_ident.get(get_ident())
        if t is None or not t.active or t.in_cb:
            return
        self.codeset.stores(code)
        self._event(t, code, off, off in self.codeset.store_offs[code])

    def _in_gap(self, code):
        fr = sys._getframe(2)
        while fr is not None and fr.f_code is not code:
            fr = fr.f_back
        return fr is not None and self.codeset.in_gap(code, fr.f_lasti)

    def _event(self, t, code, pos, store):
        t.in_cb = True
        try:
            if self.stop is not None:
                raise SimStop()
            t.evt += 1
            t.total += 1
            self.steps += 1
            if self.trace is not None:
                self.trace.append((t.evt, store, bool(self.names) and self.codeset.mentions(code, pos, self.names, self.granularity)))
            if self.marks is not None:
                if code.co_qualname == "<module>":
                    self.marks.setdefault(t.opid, []).append((t.evt, self.at is not None and self.at[0] is not code))
            if self.invariant is not None:
                v = self.invariant(t)
                if v is not None:
                    self.halt(("invariant", v, t.tid, t.opid, code.co_qualname, pos))
                    raise SimStop()
            if self.steps > self.max_steps:
                self.halt(("steps", t.tid, t.opid))
                raise SimStop()
            if t.tid >= self.nmain and t.evt % 1000 == 0 and self._over():
                self.bgsteps += 20
                if self.bgsteps > 300:
                    self.halt(("end",))
                    raise SimStop()
            if t.evt > self.op_limit:
                raise OpLimit()
            f = self.faults.get((t.opid, t.evt))
            if f is not None and f != "kill" and self._in_gap(code):
                # CPython cannot be interrupted here; at the next control point then
                del self.faults[(t.opid, t.evt)]
                self.faults.setdefault((t.opid, t.evt + 1), f)
                f = None
            if f is not None:
                del self.faults[(t.opid, t.evt)]
                self.fired.append((f, t.tid, t.opid, t.evt, code.co_qualname, pos))
                self.hash.update(repr(("F", f, t.tid, t.opid, t.evt, code.co_qualname, pos)).encode())
                if f == "kill":
                    raise self.on_kill(t)
                raise FAULT_EXC[f]("injected")
            if self.ints:
                g = self.ints.pop((t.opid, t.evt), None)
                if g is not None:
                    self._interrupt(t, g, code, pos)
            self.at = code, pos
            to = self.policy.at_event(self, t, store)
            if self.dates:
                x = self.dates.pop((t.opid, t.evt), None)
                if x is not None and self.threads[x].wait == "date" and self.threads[x].state == "blocked":
                    self.wake(self.threads[x])
                    to = x
            if to is None and self.guide is not None and not self.replaying:
                self.no_block = True
                try:
                    to = self.guide(t)
                except WouldBlock:
                    to = None
                finally:
                    self.no_block = False
                if to is not None and self.threads[to].state != "ready":
                    to = None
                if to is not None:
                    self.guided += 1
            if to is None and t.evt % 20000 == 0:
                # fairness: nobody runs for ever without the others getting a turn
                c = [x.tid for x in self.threads if x.state == "ready" and x is not t]
                if c:
                    to = c[(t.evt // 20000) % len(c)]
            if to is not None:
                self.nswitch += 1
                self.switches.append((t.tid, t.opid, t.evt, to, "e"))
                r = repr((t.tid, t.opid, t.evt, to, code.co_qualname, pos)).encode()
                self.hash.update(r)
                self.ilhash.update(repr((t.tid, code.co_qualname, pos, to)).encode())
                self.sites.add((code.co_qualname, pos))
                self._handoff(t, self.threads[to])
                if self.stop is not None:
                    raise SimStop()
        finally:
            t.in_cb = False

    def _interrupt(self, t, g, code, pos):
        """The application's own code runs here, in the middle of the call, and calls the library."""
        self.inted.append((t.tid, t.opid, t.evt, code.co_qualname, pos))
        self.hash.update(repr(("I", t.tid, t.opid, t.evt, code.co_qualname, pos)).encode())
        saved = t.opid, t.evt, t.active, self.last_line.get(t.tid)
        t.in_cb = False
        try:
            sys.call_tracing(self.on_int, (t, g))  # events are on again during that call
        finally:
            t.in_cb = True
            t.opid, t.evt, t.active = saved[:3]
            if saved[3] is not None:
                self.last_line[t.tid] = saved[3]

    # -- baton --------------------------------------------------------------
    def _handoff(self, me, other):
        self.cur = other
        other.lock.release()
        me.lock.acquire()

    def halt(self, reason):
        if self.stop is None:
            self.stop = reason
            if reason == ("end",):
                self.left = sum(x.state != "done" for x in self.threads)

    def me(self):
        return self.by_ident.get(get_ident())

    def block(self, t, why, timeout=None):
        """Called by simulated locks/sleeps: give up the processor until made ready."""
        self.steps += 1
        if self.steps > self.max_steps:
            self.halt(("steps", t.tid, t.opid))
            raise SimStop()
        t.state = "blocked"
        t.wait = why
        t.timed_out = False
        t.deadline = None if timeout is None else self.now + timeout
        nxt = self._next(t, "b")
        if nxt is None:
            # nobody can run and no deadline is pending
            self.halt(self._nobody())
            t.state = "ready"
            raise SimStop()
        if nxt is not t:
            self._handoff(t, nxt)
        if self.stop is not None:
            raise SimStop()
        return not t.timed_out

    def _over(self):
        """The threads of the run have ended; those the library started may go on for a while."""
        return all(x.state == "done" for x in self.threads[:self.nmain])

    def _nobody(self):
        if self._over():
            return ("end",)
        return ("deadlock", [(x.tid, x.opid, str(x.wait)) for x in self.threads if x.state == "blocked"])

    def _next(self, t, why):
        over = len(self.threads) > self.nmain and self._over()
        if over:
            if not self.bgsteps:
                self.ended = self.now
            self.bgsteps += 1
            if self.bgsteps > 300:
                return None
        if t is not None and why == "b":
            # several waits between two control points are told apart by number
            m = (t.opid, t.evt)
            t.seq = t.seq + 1 if t.mark == m else 0
            t.mark = m
            if t.seq:
                why = "b%d" % t.seq
        while True:
            cands = [x.tid for x in self.threads if x.state == "ready"]
            if cands:
                to = self.policy.pick(self, t, cands, why) if len(cands) > 1 else cands[0]
                self.switches.append((t.tid if t else -1, t.opid if t else -1, t.evt if t else 0, to, why))
                self.hash.update(repr(("P", why, to)).encode())
                self.ilhash.update(repr((why, to)).encode())
                return self.threads[to]
            dl = [x for x in self.threads if x.state == "blocked" and x.deadline is not None]
            if not dl:
                return None
            x = min(dl, key=lambda y: (y.deadline, y.tid))
            if over and x.deadline > self.ended + 1.0:
                return None
            self.now = max(self.now, x.deadline)
            x.timed_out = True
            x.state = "ready"
            x.deadline = None

    def wake(self, t):
        if t.state == "blocked":
            t.state = "ready"
            t.deadline = None

    def await_date(self, t):
        """Wait until some other call has got to its point, or nobody else can run."""
        if t.tid in self.dates.values():
            self.block(t, "date", 1e-3)
            t.wait = None

    def sleep(self, dt):
        t = self.me()
        self.sleeps += 1
        self.block(t, "sleep", max(float(dt), 1e-9))

    # -- running ------------------------------------------------------------
    def run(self, fns, main=False, who=None):
        """Run these bodies; with main, the first of them in the calling (main) thread."""
        self.threads = [STh(i, f, who=who) for i, f in enumerate(fns)]
        self.nmain = len(self.threads)
        self.policy.start(self)
        started = _real_allocate()
        for t in self.threads[main:]:
            started.acquire()
            _real_start(self._main, (t, started))
            started.acquire()
            started.release()
        if main:
            self.by_ident[get_ident()] = self.threads[0]
            self.threads[0].ident = get_ident()
        first = self._next(None, "s")
        self.cur = first
        first.lock.release()
        if main:
            self._main(self.threads[0], None)
        self.done_lock.acquire()
        if main:
            del self.by_ident[get_ident()]
        for t in self.threads:
            if t.exc is not None:
                raise t.exc
        if self.stop == ("end",):
            self.stop = None
        return self.stop

    def spawn(self, me, fn, args, kwargs):
        """The library starts a thread: one more simulated thread."""

        def body(t):
            fn(*args, **kwargs)

        t = STh(len(self.threads), body, me.root, self.who0 + len(self.threads))
        t.opid = -100 - t.tid
        th = getattr(fn, "__self__", None)
        t.waited = isinstance(th, threading.Thread) and not th.daemon  # the process does not end before it
        t.active = True
        self.threads.append(t)
        self.policy.added(self, t)
        started = _real_allocate()
        started.acquire()
        _real_start(self._main, (t, started))
        started.acquire()
        return t.ident

    def _main(self, t, started):
        th = None
        if started is None:
            pass
        elif t.tid < self.nmain:
            th = SimThread("thread-%d" % t.tid)
            th._daemonic = t.tid in self.daemons
            if self.on_thread is not None:
                self.on_thread(th)
        if started is not None:
            t.ident = get_ident()
            self.by_ident[t.ident] = t
            started.release()
        t.lock.acquire()
        try:
            if self.stop is None:
                t.fn(t)
        except SimStop:
            pass
        except BaseException as e:  # harness bug
            if t.tid < self.nmain:
                t.exc = e
                self.halt(("harness", repr(e)))
        t.active = False
        if t.sentinel is not None and t.sentinel.locked():
            t.sentinel.release()
        t.state = "done"
        t.fn = None
        if th is not None:
            th.end()
        del th
        if self.stop is not None:
            # unwind the others: wake each so that it raises SimStop
            for x in self.threads:
                if x.state in ("ready", "blocked") and x is not t:
                    x.state = "ready"
                    self.cur = x
                    x.lock.release()
                    return
            self.done_lock.release()
            return
        nxt = self._next(t, "x")
        if nxt is None:
            if any(x.state in ("blocked", "ready") for x in self.threads):
                self.halt(self._nobody())
                for x in self.threads:
                    if x.state in ("blocked", "ready"):
                        x.state = "ready"
                        self.cur = x
                        x.lock.release()
                        return
            self.done_lock.release()
            return
        self.cur = nxt
        nxt.lock.release()

    def step_aside(self, t):
        """Let somebody else run (used by observer threads)."""
        c = [x.tid for x in self.threads if x.state == "ready" and x is not t]
        if not c:
            return
        to = self.policy.pick(self, t, c, "a") if len(c) > 1 else c[0]
        self.switches.append((t.tid, t.opid, t.evt, to, "a"))
        self._handoff(t, self.threads[to])
        if self.stop is not None:
            raise SimStop()

    # -- API for thread bodies ----------------------------------------------
    def begin_op(self, t, opid):
        t.opid = opid
        t.evt = 0
        self.last_line.pop(t.tid, None)
        t.active = True
        # an operation boundary is a control point as well
        if self.stop is not None:
            raise SimStop()
        self.at = None
        to = self.policy.at_event(self, t, False) if len(self.threads) > 1 else None
        if to is not None:
            self.switches.append((t.tid, t.opid, 0, to, "e"))
            self.nswitch += 1
            self.ilhash.update(repr((t.tid, "op", to)).encode())
            t.in_cb = True
            try:
                self._handoff(t, self.threads[to])
            finally:
                t.in_cb = False
            if self.stop is not None:
                raise SimStop()

    def end_op(self, t):
        t.active = False
        self.hash.update(repr(("E", t.tid, t.opid, t.evt)).encode())


# ------------------------------------------------------------------ simulated locks


LOGGING = None  # the logging module's own lock


class SimLock:
    """Replacement of threading.Lock; behaves sequentially outside a simulation."""

    _reentrant = False
    used = 0  # acquisitions inside simulations
    held = 0  # locks held at the moment

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def _who(self):
        s = CURRENT
        if s is None:
            return None, ("real", get_ident())
        t = s.by_ident.get(get_ident())
        if t is None:
            return None, ("real", get_ident())
        return t, ("sim", t.who)

    def acquire(self, blocking=True, timeout=-1):
        t, who = self._who()
        if t is not None and self is not LOGGING:
            SimLock.used += 1
        if self._reentrant and self._owner == who:
            self._count += 1
            return True
        waited = 0
        while self._owner is not None:
            if not blocking:
                return False
            s = CURRENT
            if s is not None and s.no_block:
                raise WouldBlock()
            if t is None:
                # outside a simulation; only the library's own threads could release it
                waited += 1
                if len(threading._active) < 2 or waited > 5000:
                    raise Deadlock("waiting for a lock that nobody will release")
                if timeout is not None and 0 <= timeout < waited * 1e-3:
                    return False
                _real_sleep(1e-3)
                continue
            s.lock_waits += 1
            self._waiters.append(t)
            ok = s.block(t, self, None if timeout is None or timeout < 0 else timeout)
            if t in self._waiters:
                self._waiters.remove(t)
            if not ok:
                return False
        self._owner = who
        self._count = 1
        if self is not LOGGING:
            SimLock.held += 1
        return True

    def release(self):
        t, who = self._who()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != who:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        if self is not LOGGING:
            SimLock.held -= 1
        s = CURRENT
        if s is not None:
            for w in self._waiters:
                s.wake(w)
            self._waiters = []

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return "<%s>" % type(self).__name__


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner is not None and self._owner == self._who()[1]

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


_installed = False


def install_locks_and_clock():
    """Install once, before the library is imported."""
    global _installed
    if _installed:
        return
    _installed = True

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock

    def start(fn, args, kwargs={}):
        s = CURRENT
        t = s.by_ident.get(get_ident()) if s is not None else None
        if t is None:
            return _real_start(fn, args, kwargs)
        return s.spawn(t, fn, args, kwargs)

    def sentinel():
        t = CURRENT.by_ident.get(get_ident()) if CURRENT is not None else None
        if t is None:
            return _real_sentinel()
        t.sentinel = SimLock()
        return t.sentinel

    make = threading._make_invoke_excepthook

    def make_hook():
        hook = make()

        def invoke(thread):
            if not issubclass(sys.exc_info()[0], (SimStop, OpLimit)):
                hook(thread)

        return invoke

    import queue

    queue.SimpleQueue = queue._PySimpleQueue
    _thread.start_new_thread = _thread.start_new = threading._start_new_thread = start
    threading._set_sentinel = sentinel
    threading._make_invoke_excepthook = make_hook

    real_sleep = _real_sleep
    real_mono, real_time, real_perf = time.monotonic, time.time, time.perf_counter

    def _in():
        s = CURRENT
        return s if s is not None and get_ident() in s.by_ident else None

    def sleep(dt):
        s = _in()
        if s is None:
            return real_sleep(dt)
        s.sleep(dt)

    def monotonic():
        s = _in()
        return real_mono() if s is None else 1000.0 + s.now

    def time_():
        s = _in()
        return real_time() if s is None else 1.7e9 + s.now

    def perf():
        s = _in()
        return real_perf() if s is None else 1000.0 + s.now

    time.sleep = sleep
    time.monotonic = monotonic
    time.time = time_
    time.perf_counter = perf
    threading._time = monotonic
