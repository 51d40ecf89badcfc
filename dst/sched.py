"""Deterministic scheduler for real threads.

Threads of a simulated run are OS threads of which exactly one is released at a time.  The
running thread gives control away only at points the scheduler decides:

 * at forced switches, listed in the scenario as [tick, choice]: a tick is counted at every
   bytecode instruction (or line) of the watched packages (sys.monitoring), and at every
   simulated operation (file access, custom function, custom loader);
 * when it blocks on a lock, sleeps in simulated time, or ends.

Which thread runs next is a function of the scenario alone.  Simulated time advances only
when no thread is runnable, to the next wake-up (discrete-event time).
"""
import _thread
import dis
import hashlib
import sys
import threading
import types

from . import env as _env  # noqa: F401  (circular on purpose: only names are used late)

MON = sys.monitoring
TOOL = 3
real_allocate = _thread.allocate_lock
get_ident = _thread.get_ident

CURRENT = None  # the Sched of the run, if any
FULL = False    # trace to the end (otherwise only while switches or interrupts are due)


class Deadlock(BaseException):
    pass


class Aborted(BaseException):
    """Raised in simulated threads that are abandoned (never reaches repository code)."""


def _kind_of(filename, cache={}):
    k = cache.get(filename)
    if k is None:
        k = 0
        for pkg, prefix in _env.SRC_PREFIX.items():
            if filename.startswith(prefix):
                k = 1 if pkg == "fluent.syntax" else 2
        cache[filename] = k
    return k


def _line(code, offset):
    line = code.co_firstlineno
    if offset > code.co_firstlineno and offset >= len(code.co_code):
        return offset  # a LINE event passes the line itself
    for start, end, ln in code.co_lines():
        if start <= offset < end and ln:
            line = ln
    return line


def checks(code, cache={}):
    """Offsets of the instructions after which CPython looks for pending interrupts."""
    found = cache.get(code)
    if found is None:
        found = cache[code] = {i.offset for i in dis.get_instructions(code)
                               if i.opname in ("CALL", "CALL_FUNCTION_EX", "JUMP_BACKWARD", "RESUME")}
    return found


def handler(code, offset, cache={}):
    """Which exception handler an exception raised at an instruction goes to."""
    table = cache.get(code)
    if table is None:
        table = cache[code] = dis._parse_exception_table(code)
    for e in table:
        if e.start <= offset < e.end:
            return e.target
    return None


def code_objects(pkg, cache={}):
    """All code objects of a package's loaded modules, nested ones included."""
    if pkg in cache:
        return cache[pkg]
    prefix = _env.SRC_PREFIX[pkg]
    seen, out = set(), []

    def add(code):
        if code in seen or not code.co_filename.startswith(prefix):
            return
        seen.add(code)
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    def walk(obj, depth):
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    walk(f, depth)
            return
        while hasattr(obj, "__wrapped__"):
            walk_fn(obj)
            obj = obj.__wrapped__
        if isinstance(obj, type) and depth < 4:
            for v in list(vars(obj).values()):
                walk(v, depth + 1)
        else:
            walk_fn(obj)

    def walk_fn(obj):
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
            for cell in obj.__closure__ or ():
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if isinstance(v, types.FunctionType) and v.__code__ not in seen:
                    walk_fn(v)

    for name, mod in sorted(sys.modules.items()):
        f = getattr(mod, "__file__", None)
        if f and f.startswith(prefix):
            for v in list(vars(mod).values()):
                if getattr(v, "__module__", name) == name or isinstance(v, types.FunctionType):
                    walk(v, 0)
    cache[pkg] = out
    return out


class SimThread:
    __slots__ = ("id", "fn", "gate", "state", "wake", "blocked_on", "ident", "depth",
                 "calls", "intr", "intr_mode", "kind", "waits", "fired_at", "last")

    def __init__(self, id, fn):
        self.id = id
        self.fn = fn
        self.gate = real_allocate()
        self.gate.acquire()
        self.state = "ready"
        self.wake = None
        self.blocked_on = None
        self.ident = None
        self.calls = 0
        self.intr = None
        self.kind = None
        self.waits = 0
        self.intr_mode = "call"
        self.fired_at = None
        self.last = None

    def interrupt(self, n, mode, exc):
        """Raise exc at the n-th function entry ("call") or delivery point ("point") from now."""
        self.calls, self.intr, self.intr_mode, self.kind = 0, n, mode, exc
        self.fired_at = self.last = None

    def fire(self, where):
        self.intr = None
        self.fired_at = "%s:%s" % (where[0].co_name, _line(*where))
        raise self.kind


class Sched:
    def __init__(self, switches=(), policy=0, tick_limit=3_000_000, watch=None):
        # [n, choice]: at the n-th tick; [n, choice, "e"]: at the n-th function entry
        self.entries = sorted((int(x[0]), int(x[1])) for x in switches if len(x) == 3)
        self.entry = 0
        switches = [x for x in switches if len(x) == 2]
        self.switches = sorted((int(t), int(c)) for t, c in switches)
        self.si = 0
        self.next_at = self.switches[0][0] if self.switches else -1
        self.policy = policy
        self.pol_state = 0
        self.tick = 0
        self.tick_limit = tick_limit
        self.now = 0.0
        self.threads = []
        self.cur = None
        self.main_gate = real_allocate()
        self.main_gate.acquire()
        self.problem = None
        self.crash = None
        self.by_ident = {}
        self.watch = {"fluent.runtime": "instr"} if watch is None else watch
        self.interrupts = False   # threads may use interrupt()
        self.log = []
        self.n_forced = 0
        self.n_blocked = 0
        self.n_sleep = 0
        self.switch_sites = []

    # -- set-up -----------------------------------------------------------------------
    def spawn(self, fn):
        t = SimThread(len(self.threads), fn)
        self.threads.append(t)
        return t

    def run(self):
        global CURRENT
        CURRENT = self
        for t in self.threads:
            _thread.start_new_thread(self._body, (t,))
        self._watch()
        try:
            first = self._pick(None)
            if first is not None:
                self._release(first)
                self.main_gate.acquire()
        finally:
            self._unwatch()
            CURRENT = None
        if self.crash is not None:
            raise self.crash
        return self.problem

    def _body(self, t):
        t.gate.acquire()
        t.ident = get_ident()
        self.by_ident[t.ident] = t
        try:
            t.fn()
        except Aborted:
            return
        except BaseException as e:   # the harness failed
            self.crash = e
            self.main_gate.release()
            return
        t.state = "done"
        self.log.append(("end", t.id))
        self._leave(t)

    # -- tracing ----------------------------------------------------------------------
    def _watch(self):
        """Have every instruction (or line, or call) of the code under test reported."""
        ev = MON.events
        MON.use_tool_id(TOOL, "dst")
        MON.register_callback(TOOL, ev.INSTRUCTION, self._on_step)
        MON.register_callback(TOOL, ev.LINE, self._on_step)
        MON.register_callback(TOOL, ev.PY_START, self._on_call)
        for pkg, how in self.watch.items():
            events = {"instr": ev.INSTRUCTION | ev.PY_START, "line": ev.LINE | ev.PY_START,
                      "call": ev.PY_START}[how]
            for code in code_objects(pkg):
                MON.set_local_events(TOOL, code, events)

    def _unwatch(self):
        ev = MON.events
        for pkg in self.watch:
            for code in code_objects(pkg):
                MON.set_local_events(TOOL, code, 0)
        for e in (ev.INSTRUCTION, ev.LINE, ev.PY_START):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)

    def _on_step(self, code, offset):
        self.tick += 1
        if self.interrupts:
            t = self.cur
            if t.intr is not None and t.intr_mode == "point":
                # CPython delivers interrupts after calls, jumps back and function entries, as part
                # of these; where the next instruction has other handlers, it cannot stand for them
                last, t.last = t.last, (code, offset) if offset in checks(code) else None
                if (last is not None and last[0] is code and handler(code, last[1]) == handler(code, offset)
                        or offset == 0):
                    t.calls += 1
                    if t.calls >= t.intr:
                        t.fire((code, offset))
        if self.interrupts and self.next_at == -1:
            return None
        if self.tick == self.next_at:
            self._forced((code, offset))
        elif self.next_at == -1:
            if not FULL:
                return MON.DISABLE
            if self.tick > self.tick_limit:
                self._fail(("steps", "more than %d steps without finishing" % self.tick_limit))

    def _on_call(self, code, offset):
        t = self.cur
        if self.entries:
            self.entry += 1
            if self.entry == self.entries[0][0]:
                choice = self.entries[0][1]
                while self.entries and self.entries[0][0] <= self.entry:
                    self.entries.pop(0)
                self._switch(choice, (code, offset))
        if t.intr is not None and t.intr_mode == "call" and not code.co_flags & 0x20:
            t.calls += 1
            if t.calls >= t.intr:
                t.fire((code, offset))

    def point(self, frame=None):
        self.tick += 1
        if self.tick == self.next_at:
            self._forced(frame)
        elif self.tick > self.tick_limit:
            self._fail(("steps", "more than %d steps without finishing" % self.tick_limit))

    def _forced(self, frame):
        me = self.cur
        while self.si < len(self.switches) and self.switches[self.si][0] <= self.tick:
            choice = self.switches[self.si][1]
            self.si += 1
        self.next_at = self.switches[self.si][0] if self.si < len(self.switches) else -1
        self._switch(choice, frame)

    def _switch(self, choice, frame):
        me = self.cur
        others = [t for t in self.threads if t is not me and t.state == "ready"]
        if not others:
            # nobody is runnable now: let a sleeper wake up "early" (its delay was shorter)
            sleepers = [t for t in self.threads if t.state == "sleeping"]
            if sleepers and choice & 1024:
                t = min(sleepers, key=lambda t: (t.wake, t.id))
                if t.wake != float("inf") and t.wake < self.now + 1e5:
                    self.now = max(self.now, t.wake)
                    t.state = "ready"
                    others = [t]
        if not others:
            return
        target = others[choice % len(others)]
        self.n_forced += 1
        site = None
        if frame is not None:
            site = "%s:%s" % (frame[0].co_name, _line(*frame))
        self.switch_sites.append(site)
        self.log.append(("switch", self.tick, me.id, target.id, site))
        self._handoff(me, target)

    # -- scheduling -------------------------------------------------------------------
    def _pick(self, me):
        """The next thread to run when the current one cannot go on."""
        while True:
            ready = [t for t in self.threads if t.state == "ready"]
            if ready:
                if len(ready) == 1 or not self.policy:
                    return ready[0]
                self.pol_state += 1
                h = hashlib.blake2b(b"%d/%d" % (self.policy, self.pol_state), digest_size=4)
                return ready[int.from_bytes(h.digest(), "big") % len(ready)]
            sleepers = [t for t in self.threads if t.state == "sleeping"]
            if not sleepers:
                return None
            t = min(sleepers, key=lambda t: (t.wake, t.id))
            self.now = max(self.now, t.wake)
            t.state = "ready"

    def _release(self, t):
        self.cur = t
        t.gate.release()

    def _handoff(self, me, target):
        if target is me:
            self.cur = me
            return
        self._release(target)
        me.gate.acquire()
        if self.problem is not None:
            raise Aborted

    def _leave(self, t):
        nxt = self._pick(t)
        if nxt is not None:
            self._release(nxt)
            return
        if any(x.state != "done" for x in self.threads):
            self.problem = ("deadlock", "threads %s wait for each other" %
                            [x.id for x in self.threads if x.state == "blocked"])
        self.main_gate.release()

    def _fail(self, problem):
        self.problem = problem
        self.main_gate.release()
        self.cur.gate.acquire()  # park for ever; the run's process ends
        raise Aborted

    # -- services for simulated operations -------------------------------------------
    def me(self):
        return self.by_ident.get(get_ident())

    def yield_point(self, label):
        """A simulated operation: one tick at which a switch may be forced."""
        if self.me() is None:
            return
        self.log.append(("op", self.cur.id, label))
        self.point(None)

    def sleep(self, dt, label=""):
        me = self.me()
        if me is None:
            return
        if dt <= 0:
            return self.yield_point(label)
        self.n_sleep += 1
        me.waits += 1
        self.log.append(("sleep", me.id, round(dt, 6), label))
        me.state = "sleeping"
        me.wake = self.now + dt
        self._handoff(me, self._pick(me))

    def wait_lock(self, me, lock):
        """Called when `lock` is taken: give way until it has been released."""
        self.n_blocked += 1
        self.log.append(("blocked", me.id))
        me.state = "blocked"
        me.blocked_on = lock
        me.waits += 1
        nxt = self._pick(me)
        if nxt is None:
            self._fail(("deadlock", "thread %d waits for a lock that is never released" % me.id))
        self._handoff(me, nxt)

    def lock_released(self, lock):
        for t in self.threads:
            if t.blocked_on is lock:
                t.blocked_on = None
                if t.state == "blocked":
                    t.state = "ready"

    def digest(self):
        return hashlib.blake2b(repr(self.log).encode(), digest_size=8).hexdigest()


# -- locks ----------------------------------------------------------------------------

def _sim():
    s = CURRENT
    if s is None:
        return None, None
    t = s.by_ident.get(get_ident())
    if t is None:
        return None, None
    return s, t


class SimLock:
    """threading.Lock: the real lock outside a simulation, a scheduling point inside."""

    def __init__(self):
        self._l = real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        s, t = _sim()
        if s is None:
            if blocking and timeout == -1:
                # nobody else is running who could release it
                if not self._l.acquire(True, 3):
                    raise Deadlock("a lock was never released")
                return True
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # timed wait: let simulated time pass once, then try again
                end = s.now + timeout
                s.sleep(min(timeout, 0.001) or 0.001, "timed lock")
                if s.now >= end:
                    return self._l.acquire(False)
                timeout = end - s.now
                continue
            s.wait_lock(t, self)
        return True

    def release(self):
        self._l.release()
        s, t = _sim()
        if s is not None:
            s.lock_released(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = real_allocate()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        ok = self._block.acquire(blocking, timeout)
        if ok:
            self._owner = me
            self._count = 1
        return ok

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
