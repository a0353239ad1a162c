"""Deterministic simulator core.

Owns every source of nondeterminism that titus2 code can reach:

* threads      -- simulated threads are real threads parked on a baton; exactly one runs at a
                  time and the seeded scheduler decides, at every bytecode executed inside
                  /repo/titus or inside the code titus generates, whether to switch.
* locks        -- ``threading.Lock``/``RLock``/``Condition``... are rebuilt over SimLock, so that
                  blocking, deadlock and lock leaks are visible to the scheduler.
* clocks       -- ``time.time`` (wall) and ``time.monotonic``/``perf_counter`` are virtual.
* randomness   -- ``random.Random()`` without a seed, ``os.urandom`` and the global generators
                  draw from the run's seed.
* failures     -- exceptions raised at a chosen call inside PFA evaluation ("failing allocation").

One case (a JSON document) decides one execution exactly.
"""
import _thread
import os
import random as _random_mod
import sys
import threading
import time as _time_mod

REPO = os.environ.get("VERIF_REPO", "/repo")

real_time = _time_mod.time
real_sleep = _time_mod.sleep
real_monotonic = _time_mod.monotonic
real_allocate_lock = _thread.allocate_lock
RealRandom = _random_mod.Random
real_urandom = os.urandom
get_ident = _thread.get_ident

CUR = None          # the running Sim, or None
EPOCH = 1_400_000_000.0


class SimKill(BaseException):
    """Unwinds a simulated thread when a run is abandoned."""


class WouldBlockForever(RuntimeError):
    """A lock was requested outside a multi-threaded run while nobody can release it."""


class HarnessError(Exception):
    """Something is wrong with the machinery (never reported as a violation)."""


class TooLong(Exception):
    """A document that does not end even when it is all alone (its loop has no end): nothing to compare with."""


# ------------------------------------------------------------------ virtual clock

class Clock(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.elapsed = 0.0      # true simulated time since the start of the case
        self.wall_offset = 0.0  # clock skew/jumps applied to the wall clock only
        self.reads = 0
        self.tick = 0.0         # true time that passes on every clock read
        self.total = 0.0
        self.on_read = None

    def advance(self, dt):
        if dt > 0:
            self.elapsed += dt
            self.total += dt

    def jump_wall(self, dt):
        self.wall_offset += dt

    def _read(self):
        self.reads += 1
        if self.tick:
            self.advance(self.tick)
        if self.on_read is not None:
            self.on_read(self)

    def time(self):
        self._read()
        return EPOCH + self.elapsed + self.wall_offset

    def monotonic(self):
        self._read()
        return 1000.0 + self.elapsed


CLOCK = Clock()
_clock_on = False


def _time():
    return CLOCK.time() if _clock_on else real_time()


def _monotonic():
    return CLOCK.monotonic() if _clock_on else real_monotonic()


def _sleep(dt):
    if not _clock_on:
        return real_sleep(dt)
    sim = CUR
    if sim is not None and sim.running:
        sim.sleep(dt)
    else:
        CLOCK.advance(dt)


class virtual_time(object):
    """Context manager: titus sees the virtual clocks."""

    def __enter__(self):
        global _clock_on
        _clock_on = True

    def __exit__(self, *a):
        global _clock_on
        _clock_on = False


# ------------------------------------------------------------------ randomness

class Entropy(object):
    """What the operating system's entropy pool would have delivered."""

    def __init__(self):
        self.rng = None
        self.draws = 0

    def reset(self, seed):
        self.rng = RealRandom(seed)
        self.draws = 0

    def bytes(self, n):
        self.draws += 1
        return bytes(self.rng.getrandbits(8) for _ in range(n))


ENTROPY = Entropy()
ENTROPY.reset(0)
_entropy_on = False


def _urandom(n):
    return ENTROPY.bytes(n) if _entropy_on else real_urandom(n)


class SimRandom(RealRandom):
    def __new__(cls, *a, **k):
        return RealRandom.__new__(cls)

    def __init__(self, x=None):
        if x is None and _entropy_on:
            ENTROPY.draws += 1
            x = ENTROPY.rng.getrandbits(64)
        RealRandom.__init__(self, x)

    def seed(self, a=None, version=2):
        if a is None and _entropy_on:
            ENTROPY.draws += 1
            a = ENTROPY.rng.getrandbits(64)
        return RealRandom.seed(self, a, version)


def reset_randomness(seed):
    """Every ambient generator restarts from the case's seed."""
    global _entropy_on
    ENTROPY.reset(seed)
    _entropy_on = True
    _random_mod.seed(seed ^ 0x5bd1e995)
    np = sys.modules.get("numpy")
    if np is not None:
        np.random.seed((seed * 2654435761) % (2 ** 32))


# ------------------------------------------------------------------ locks

class SimLock(object):
    _n = 0

    def __init__(self):
        self._owner = None
        self._held = False
        SimLock._n += 1
        self.serial = SimLock._n

    def acquire(self, blocking=True, timeout=-1):
        sim = CUR
        if sim is None or not sim.running:
            if self._held:
                if not blocking or timeout >= 0:
                    return False
                raise WouldBlockForever("lock is held and no running thread can release it")
            self._held = True
            self._owner = None
            return True
        return sim.lock_acquire(self, blocking, timeout)

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        sim = CUR
        self._held = False
        self._owner = None
        if sim is not None and sim.running:
            sim.lock_release(self)

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition / fork hooks
    def _at_fork_reinit(self):
        self._held = False
        self._owner = None

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


_installed = False


def install():
    """Put the seams in place.  Must run before titus is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = threading._PyRLock
    threading._RLock = threading._PyRLock
    threading._time = _monotonic
    _time_mod.time = _time
    _time_mod.monotonic = _monotonic
    _time_mod.perf_counter = _monotonic
    _time_mod.process_time = _monotonic
    _time_mod.time_ns = lambda: int(_time() * 1e9)
    _time_mod.monotonic_ns = lambda: int(_monotonic() * 1e9)
    _time_mod.perf_counter_ns = lambda: int(_monotonic() * 1e9)
    _time_mod.sleep = _sleep
    _random_mod.Random = SimRandom
    os.urandom = _urandom
    _random_mod._urandom = _urandom


# ------------------------------------------------------------------ trace filter

_traced_code = {}
_TITUS = os.path.join(REPO, "titus") + os.sep
_LIB = os.path.join(REPO, "titus", "lib") + os.sep
_faultable = {}


def is_traced(code):
    r = _traced_code.get(code)
    if r is None:
        fn = code.co_filename
        r = fn == "<string>" or fn.startswith(_TITUS)
        _traced_code[code] = r
    return r


def is_faultable(code):
    """Calls made while a PFA expression is being evaluated: a library function, or a piece of
    the generated program (inline function, loop body, branch)."""
    r = _faultable.get(code)
    if r is None:
        fn = code.co_filename
        r = (fn == "<string>" and code.co_name == "<lambda>") or \
            (fn.startswith(_LIB) and code.co_name == "__call__")
        _faultable[code] = r
    return r


FAULT_TYPES = {
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "OSError": OSError,
    "RecursionError": RecursionError,
    "ValueError": ValueError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "AssertionError": AssertionError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
}


class CallFaults(object):
    """Single-threaded 'failing allocation' injector: raise at the n-th faultable call."""

    def __init__(self, nth, excname):
        self.nth = nth
        self.exc = FAULT_TYPES[excname]
        self.n = 0
        self.fired = False

    def _trace(self, frame, event, arg):
        if event == "call" and not self.fired and is_faultable(frame.f_code):
            self.n += 1
            if self.n == self.nth:
                self.fired = True
                raise self.exc("simulated fault")
        return None

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


# ------------------------------------------------------------------ schedules

class RandomWalk(object):
    """Switch with probability p at every scheduling point; uniform choice when forced."""

    def __init__(self, seed, p):
        self.rng = RealRandom(seed)
        self.p = p

    def gap(self):
        # geometric
        import math
        u = self.rng.random()
        return 1 + int(math.log(1.0 - u) / math.log(1.0 - self.p))

    def start(self, n):
        self.next = self.gap()

    def voluntary(self, sim, events, cur, runnable):
        self.next = events + self.gap()
        others = [t for t in runnable if t != cur]
        return self.rng.choice(others) if others else None

    def forced(self, sim, events, runnable):
        return self.rng.choice(runnable)

    def sync(self, sim, events, cur, runnable):
        return None


class SyncBiased(RandomWalk):
    """Additionally switches with probability q at lock operations and callbacks."""

    def __init__(self, seed, p, q):
        RandomWalk.__init__(self, seed, p)
        self.q = q

    def sync(self, sim, events, cur, runnable):
        if self.rng.random() < self.q:
            return self.rng.choice(runnable)
        return None


class Pct(object):
    """Priority schedule with d random priority-change points over an estimated length."""

    def __init__(self, seed, d, length):
        self.rng = RealRandom(seed)
        self.points = sorted(self.rng.randint(1, max(2, length)) for _ in range(d))

    def start(self, n):
        self.prio = list(range(n, 2 * n))
        self.rng.shuffle(self.prio)
        self.low = 0
        self.next = self.points[0] if self.points else 1 << 60

    def voluntary(self, sim, events, cur, runnable):
        while self.points and self.points[0] <= events:
            self.points.pop(0)
        self.next = self.points[0] if self.points else 1 << 60
        self.low -= 1
        self.prio[cur] = self.low
        return max(runnable, key=lambda t: self.prio[t])

    def forced(self, sim, events, runnable):
        return max(runnable, key=lambda t: self.prio[t])

    def sync(self, sim, events, cur, runnable):
        best = max(runnable, key=lambda t: self.prio[t])
        return best if best != cur else None


class Explicit(object):
    """Replays a recorded list of switches [(event number, thread)]."""

    def __init__(self, switches):
        self.by_event = {int(e): int(t) for e, t in switches}
        self.order = sorted(self.by_event)
        self.i = 0

    def start(self, n):
        self._advance(0)

    def _advance(self, events):
        while self.i < len(self.order) and self.order[self.i] <= events:
            self.i += 1
        self.next = self.order[self.i] if self.i < len(self.order) else 1 << 60

    def voluntary(self, sim, events, cur, runnable):
        t = self.by_event.get(events)
        self._advance(events)
        return t if t in runnable else None

    def forced(self, sim, events, runnable):
        t = self.by_event.get(events)
        self._advance(events)
        return t if t in runnable else min(runnable)

    def sync(self, sim, events, cur, runnable):
        return None


def make_schedule(spec):
    k = spec["kind"]
    if k == "walk":
        return RandomWalk(spec["seed"], spec["p"])
    if k == "sync":
        return SyncBiased(spec["seed"], spec["p"], spec["q"])
    if k == "pct":
        return Pct(spec["seed"], spec["d"], spec["len"])
    if k == "explicit":
        return Explicit(spec["switches"])
    raise HarnessError("unknown schedule " + k)


def random_schedule(rng, length=20000):
    """Swarm choice of a scheduling strategy."""
    r = rng.random()
    seed = rng.getrandbits(48)
    if r < 0.45:
        return {"kind": "walk", "seed": seed, "p": rng.choice([0.002, 0.01, 0.03, 0.1, 0.3])}
    if r < 0.75:
        return {"kind": "sync", "seed": seed, "p": rng.choice([0.0005, 0.005, 0.03]), "q": rng.choice([0.2, 0.5, 0.9])}
    return {"kind": "pct", "seed": seed, "d": rng.randint(1, 5), "len": int(length * rng.choice([0.3, 1.0]))}


# ------------------------------------------------------------------ the simulator

RUNNABLE, BLOCKED, SLEEPING, DONE = range(4)


class SimThread(object):
    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.state = RUNNABLE
        self.baton = real_allocate_lock()
        self.baton.acquire()
        self.waiting = None
        self.deadline = None
        self.op = None
        self.fault_nth = None
        self.fault_exc = None
        self.narrow = None          # names of the only functions preempted at present
        self.fault_any = False      # a fault may hit any call made inside titus
        self.calls = 0
        self.fault_fired = False
        self.error = None


class Sim(object):
    """One multi-threaded run."""

    def __init__(self, schedule, max_events=2_000_000, trace="opcode", tick=0.0):
        self.sched = make_schedule(schedule)
        self.max_events = max_events
        self.trace_mode = trace
        self.tick = tick
        self.threads = []
        self.events = 0
        self.running = False
        self.current = None
        self.aborting = None
        self.switches = []
        self.sig = []            # the interleaving signature
        self.stats = {"switches": 0, "blocked": 0, "preempt_in_titus": 0}
        self.deadlock = None
        self.main_baton = real_allocate_lock()
        self.main_baton.acquire()
        self._local = self._make_local()
        self._global = self._make_global()

    # -------------------------------------------------------------- tracing

    def _make_local(self):
        sim = self

        def local(frame, event, arg):
            if sim.running:
                sim.events += 1
                if sim.tick:
                    CLOCK.advance(sim.tick)
                if sim.events >= sim.sched.next:
                    sim._preempt(None)
                elif sim.events > sim.max_events:
                    sim._budget()
                elif sim.aborting is not None:
                    raise SimKill()
            return local
        return local

    def _make_global(self):
        sim = self
        local = self._local
        opcode = self.trace_mode == "opcode"
        traced = _traced_code

        def tracer(frame, event, arg):
            code = frame.f_code
            r = traced.get(code)
            if r is None:
                r = is_traced(code)
            if not r:
                return None
            th = sim.current
            if th is not None and th.narrow is not None and code.co_name not in th.narrow:
                return None
            if opcode:
                frame.f_trace_opcodes = True
            if sim.running:
                sim.events += 1
                if th is not None and th.fault_nth is not None and (th.fault_any or is_faultable(code)):
                    th.calls += 1
                    if th.calls == th.fault_nth:
                        th.fault_fired = True
                        exc = FAULT_TYPES[th.fault_exc]
                        raise exc("simulated fault")
                if sim.events >= sim.sched.next:
                    sim._preempt(None)
                elif sim.aborting is not None:
                    raise SimKill()
            return local
        return tracer

    def rearm(self):
        """Tracing is switched off by an exception raised from the tracer; turn it on again,
        also for the frames that are already on the stack."""
        if self.trace_mode == "none":
            return
        if sys.gettrace() is None:
            sys.settrace(self._global)
            f = sys._getframe(1)
            while f is not None:
                if is_traced(f.f_code):
                    f.f_trace = self._local
                    if self.trace_mode == "opcode":
                        f.f_trace_opcodes = True
                f = f.f_back

    # -------------------------------------------------------------- scheduling

    def _runnable(self):
        return [t.tid for t in self.threads if t.state == RUNNABLE]

    def _budget(self):
        if self.aborting is None:
            self.aborting = "budget"
        raise SimKill()

    def _preempt(self, why):
        """A scheduling point where the scheduler may move to another thread."""
        if self.aborting is not None:
            raise SimKill()
        if self.events > self.max_events:
            self._budget()
        cur = self.current
        runnable = self._runnable()
        t = self.sched.voluntary(self, self.events, cur.tid, runnable)
        if t is not None and t != cur.tid:
            self.stats["switches"] += 1
            self.stats["preempt_in_titus"] += 1
            self.switches.append((self.events, t))
            self._handoff(self.threads[t])

    def point(self, kind, info=None):
        """An explicit scheduling point: a lock operation, a callback, the start of an operation."""
        if not self.running:
            return
        self.rearm()
        if self.aborting is not None:
            raise SimKill()
        self.events += 1
        cur = self.current
        self.sig.append((cur.tid, kind, info))
        if self.events >= self.sched.next:
            self._preempt(kind)
            return
        t = self.sched.sync(self, self.events, cur.tid, self._runnable())
        if t is not None and t != cur.tid:
            self.stats["switches"] += 1
            self.switches.append((self.events, t))
            self._handoff(self.threads[t])

    def _handoff(self, target):
        me = self.current
        self.current = target
        target.baton.release()
        me.baton.acquire()
        if self.aborting is not None:
            raise SimKill()

    def _pick_forced(self):
        """The current thread cannot continue; returns the next thread or None."""
        while True:
            runnable = self._runnable()
            if runnable:
                t = self.sched.forced(self, self.events, runnable)
                if len(runnable) > 1:
                    self.switches.append((self.events, t))
                return self.threads[t]
            sleeping = [t for t in self.threads if t.state == SLEEPING or (t.state == BLOCKED and t.deadline is not None)]
            if not sleeping:
                return None
            first = min(sleeping, key=lambda t: (t.deadline, t.tid))
            if first.deadline > CLOCK.elapsed:
                CLOCK.advance(first.deadline - CLOCK.elapsed)
            first.state = RUNNABLE

    def _block(self):
        """Give up the processor; the caller's state is no longer RUNNABLE."""
        self.events += 1
        me = self.current
        nxt = self._pick_forced()
        if nxt is None:
            self.deadlock = [(t.tid, t.op, t.waiting.serial if t.waiting is not None else None)
                             for t in self.threads if t.state == BLOCKED]
            self.aborting = "deadlock"
            me.state = RUNNABLE
            raise SimKill()
        self.stats["switches"] += 1
        if nxt is not me:
            self._handoff(nxt)
        elif self.aborting is not None:
            raise SimKill()

    def lock_acquire(self, lock, blocking, timeout):
        self.point("acq")
        me = self.current
        if lock._held and blocking:
            self.stats["blocked"] += 1
            me.deadline = None if timeout is None or timeout < 0 else CLOCK.elapsed + timeout
            while lock._held:
                me.waiting = lock
                me.state = BLOCKED
                self._block()
                me.waiting = None
                if lock._held and me.deadline is not None and CLOCK.elapsed >= me.deadline:
                    me.deadline = None
                    return False
            me.deadline = None
        elif lock._held:
            return False
        lock._held = True
        lock._owner = me.tid
        self.sig.append((me.tid, "got", None))
        return True

    def lock_release(self, lock):
        for t in self.threads:
            if t.state == BLOCKED and t.waiting is lock:
                t.state = RUNNABLE
        if self.aborting is None:
            self.point("rel")

    def sleep(self, dt):
        me = self.current
        me.deadline = CLOCK.elapsed + max(0.0, dt)
        me.state = SLEEPING
        self._block()
        me.deadline = None

    # -------------------------------------------------------------- running

    def spawn(self, fn, name=None):
        th = SimThread(len(self.threads), name)
        self.threads.append(th)
        th.fn = fn
        return th

    def _body(self, th):
        th.baton.acquire()
        try:
            if self.aborting is None:
                if self.trace_mode != "none":
                    sys.settrace(self._global)
                th.fn(th)
        except SimKill:
            pass
        except BaseException as err:      # a harness bug: thread bodies catch everything
            th.error = err
            if self.aborting is None:
                self.aborting = "harness"
        finally:
            sys.settrace(None)
            th.state = DONE
            self._leave(th)

    def _leave(self, th):
        if self.aborting is not None:
            for t in self.threads:
                if t.state != DONE:
                    t.state = RUNNABLE
                    self.current = t
                    t.baton.release()
                    return
            self.current = None
            self.main_baton.release()
            return
        self.events += 1
        nxt = self._pick_forced()
        if nxt is None:
            if any(t.state == BLOCKED for t in self.threads):
                self.deadlock = [(t.tid, t.op, t.waiting.serial if t.waiting is not None else None)
                                 for t in self.threads if t.state == BLOCKED]
                self.aborting = "deadlock"
                self._leave(th)
                return
            self.current = None
            self.main_baton.release()
            return
        self.current = nxt
        nxt.baton.release()

    def run(self):
        global CUR
        if not self.threads:
            return
        prev = CUR
        CUR = self
        self.sched.start(len(self.threads))
        self.running = True
        for th in self.threads:
            _thread.start_new_thread(self._body, (th,))
        self.events += 1
        t = self.sched.forced(self, self.events, self._runnable())
        self.switches.append((self.events, t))
        self.current = self.threads[t]
        self.current.baton.release()
        self.main_baton.acquire()
        self.running = False
        CUR = prev
        for th in self.threads:
            if th.error is not None:
                raise HarnessError("simulated thread died: %r" % (th.error,)) from th.error

    def explicit_schedule(self):
        return {"kind": "explicit", "switches": [list(s) for s in self.switches]}


def reset_titus_globals():
    """Process-wide counters that titus uses to invent names restart with every case."""
    u = sys.modules.get("titus.util")
    if u is not None:
        for n in list(vars(u)):
            if n.endswith("Counter") and isinstance(getattr(u, n), int):
                setattr(u, n, 0)


def begin_case(seed):
    """Bring everything ambient back to a function of the case's seed."""
    global CUR
    CUR = None
    CLOCK.reset()
    reset_randomness(seed)
    reset_titus_globals()
    SimLock._n = 0
