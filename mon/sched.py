"""Deterministic cooperative scheduler with virtual time ("schedule fuzzer").

install() must run before opentelemetry (and concurrent.futures, logging
handlers, ...) create locks or copy functions out of `time`.  It replaces the
primitives of `threading`, `queue.SimpleQueue` and the clocks of `time` with
versions that, inside Scheduler.run(), hand a single baton between real
threads.  A thread can lose the baton at

  * every source line executed in a file below /repo (sys.monitoring LINE),
  * in about half of the scenarios also after every call of a C function made
    from there (sys.monitoring C_RETURN: CPython may switch threads at that
    point, in the middle of a line),
  * every acquire/release of a lock, condition, event, semaphore,
  * every blocking wait, join and sleep (virtual time).

Outside Scheduler.run() the replacements behave like the originals for a
single thread.
"""

import _thread
import queue
import random
import sys
import threading
import time
import traceback

_raw_lock = _thread.allocate_lock
_get_ident = _thread.get_ident
_orig_start_new_thread = threading._start_new_thread
_orig_thread_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive
_orig_sleep = time.sleep
_orig_monotonic = time.monotonic

RUN, BLOCK, DONE = "run", "block", "done"

EPOCH_NS = 1_700_000_000_000_000_000

_active = None  # the running Scheduler, or None
_installed = False
_idle_clock_ns = EPOCH_NS
TOOL = 4


class Killed(SystemExit):
    """Unwinds threads that are still alive when a scenario ends."""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class VThread:
    __slots__ = ("id", "name", "raw", "state", "cond", "deadline", "prio", "ident", "thread", "why", "frames")

    def __init__(self, vid, name):
        self.id = vid
        self.name = name
        self.raw = _raw_lock()
        self.raw.acquire()
        self.state = RUN
        self.cond = None
        self.deadline = None
        self.prio = 0.0
        self.ident = None
        self.thread = None
        self.why = ""

    def ready(self, now):
        if self.state == RUN:
            return True
        if self.state == BLOCK:
            if self.cond is not None and self.cond():
                return True
            return self.deadline is not None and self.deadline <= now
        return False


class Scheduler:
    """One scheduled scenario."""

    def __init__(self, seed, strategy=None, max_steps=400_000, early_timer=0.02, clock_tick_ns=1000, early_max_s=None):
        self.rng = random.Random(seed)
        self.threads = []
        self.current = None
        self.now = EPOCH_NS + self.rng.randrange(0, 10**9)
        self.mono_base = self.now - 5_000_000_000
        self.steps = 0
        self.max_steps = max_steps
        self.killing = False
        self.switches = 0
        self.trace = []
        self.tick = clock_tick_ns
        self.failure = None
        self.by_ident = {}
        self.thread_exceptions = []
        self.lines = 0
        if strategy is None:
            strategy = self.rng.choice(["rare", "mid", "often", "pct", "pct"])
        self.strategy = strategy
        self.early_timer = early_timer
        self.early_max_ns = None if early_max_s is None else int(early_max_s * 1e9)
        self.p_line = {"rare": 0.01, "mid": 0.06, "often": 0.3, "pct": 0.0}[strategy]
        self.p_sync = {"rare": 0.1, "mid": 0.3, "often": 0.5, "pct": 0.0}[strategy]
        if strategy == "pct":
            depth = self.rng.randrange(1, 6)
            horizon = self.rng.choice([200, 1000, 4000])
            self.change = sorted(self.rng.randrange(1, horizon) for _ in range(depth))
        else:
            self.change = []
        self.preempt = 0
        self.block_hook = None
        # bool from a separate stream: scenarios keep their other random choices
        self.within_lines = random.Random(f"{seed}w").random() < 0.5

    # ---- time ----
    def time_ns(self):
        self.now += self.tick
        return self.now

    # ---- choosing ----
    def _candidates(self):
        now = self.now
        return [t for t in self.threads if t.state != DONE and t.ready(now)]

    def _choose(self, forced):
        """Pick the next thread; advances virtual time when nobody can run."""
        while True:
            cands = self._candidates()
            timed = [t for t in self.threads if t.state == BLOCK and t.deadline is not None and t.deadline > self.now]
            if not cands:
                if not timed:
                    return None
                self.now = max(self.now, min(t.deadline for t in timed))
                continue
            if timed and self.early_timer and forced and self.rng.random() < self.early_timer:
                # the other threads are slow: let the earliest timer fire now
                first = min(t.deadline for t in timed)
                if self.early_max_ns is None or first - self.now <= self.early_max_ns:
                    self.now = max(self.now, first)
                    continue
            break
        if len(cands) == 1:
            return cands[0]
        if self.strategy == "pct":
            return max(cands, key=lambda t: t.prio)
        return self.rng.choice(cands)

    def _transfer(self, nxt, cur, site):
        if nxt is cur:
            return
        self.switches += 1
        if len(self.trace) < 3000:
            self.trace.append((cur.id if cur else -1, nxt.id, site))
        self.current = nxt
        nxt.raw.release()
        cur.raw.acquire()
        if self.killing:
            raise Killed()

    def _limit(self):
        self.steps += 1
        if self.steps > self.max_steps and self.failure is None and not self.killing:
            self._abort(StepLimit(f"no termination within {self.max_steps} steps; virtual now={self.now}\n" + self.describe()))

    def _abort(self, exc):
        """Called by the baton holder: ends the scenario with a failure."""
        self.failure = exc
        main = self.threads[0]
        cur = self.current
        if cur is main:
            raise exc
        self.killing = True
        main.state = RUN
        self.current = main
        main.raw.release()
        cur.raw.acquire()
        raise Killed()

    def point(self, site, sync=False):
        """A possible preemption of the current thread."""
        if self.killing:
            return
        self._limit()
        if self.strategy == "pct":
            self.preempt += 1
            if self.change and self.preempt >= self.change[0]:
                self.change.pop(0)
                cur = self.current
                cur.prio = min(t.prio for t in self.threads) - 1 - self.rng.random()
                nxt = self._choose(True)
                if nxt is not None and nxt is not cur:
                    self._transfer(nxt, cur, site)
            return
        if self.rng.random() < (self.p_sync if sync else self.p_line):
            cur = self.current
            nxt = self._choose(True)
            if nxt is not None and nxt is not cur:
                self._transfer(nxt, cur, site)

    def block(self, cond, timeout, why):
        """Block the current thread until cond() or the virtual timeout.
        Returns cond() at wake-up."""
        if self.killing:
            return True
        self._limit()
        cur = self.current
        if self.block_hook is not None:
            self.block_hook(cur, timeout, why)
        cur.state = BLOCK
        cur.cond = cond
        cur.why = why
        cur.deadline = None if timeout is None else self.now + max(0, int(timeout * 1e9))
        nxt = self._choose(False)
        if nxt is None:
            exc = Deadlock("all threads are blocked forever\n" + self.describe())
            cur.state = RUN
            self._abort(exc)
        self._transfer(nxt, cur, why)
        cur.state = RUN
        cur.cond = None
        cur.deadline = None
        return True

    def describe(self):
        out = []
        frames = sys._current_frames()
        for t in self.threads:
            out.append(f"thread {t.id} {t.name} state={t.state} waiting={t.why if t.state == BLOCK else ''}")
            f = frames.get(t.ident)
            if f is not None and t.state != DONE:
                stack = [
                    f"    {s.filename}:{s.lineno} {s.name}"
                    for s in traceback.extract_stack(f)
                    if "/mon/sched.py" not in s.filename
                ]
                out.extend(stack[-8:])
        return "\n".join(out)

    # ---- threads ----
    def spawn(self, function, args, kwargs=None):
        vt = VThread(len(self.threads), getattr(getattr(function, "__self__", None), "name", "t"))
        vt.prio = self.rng.random()
        self.threads.append(vt)
        owner = getattr(function, "__self__", None)
        if isinstance(owner, threading.Thread):
            vt.thread = owner
            owner._mon_vt = vt

        def body():
            vt.raw.acquire()
            vt.ident = _get_ident()
            self.by_ident[vt.ident] = vt
            try:
                if not self.killing:
                    function(*args, **(kwargs or {}))
            except Killed:
                pass
            except BaseException as exc:  # pylint: disable=broad-except
                if not self.killing:
                    self.thread_exceptions.append((vt.name, repr(exc), traceback.format_exc(limit=-6)))
            finally:
                vt.state = DONE
                self.by_ident.pop(vt.ident, None)
                self._finished(vt)

        ident = _orig_start_new_thread(body, ())
        return ident

    def _finished(self, vt):
        if self.killing:
            self._reaper.release()
            return
        nxt = self._choose(False)
        if nxt is None:
            self.failure = Deadlock("all threads are blocked forever\n" + self.describe())
            self.killing = True
            nxt = self.threads[0]
            nxt.state = RUN
            self.current = nxt
            self._dead_exit = True
            nxt.raw.release()
            return
        self.current = nxt
        self.switches += 1
        if len(self.trace) < 3000:
            self.trace.append((vt.id, nxt.id, "exit"))
        nxt.raw.release()

    def run(self, fn):
        """Runs fn() in the calling thread as thread 0 and returns its result.
        Raises Deadlock / StepLimit when the scenario cannot finish."""
        global _active, _idle_clock_ns
        assert _active is None
        self._reaper = _raw_lock()
        self._reaper.acquire()
        main = VThread(0, "main")
        main.prio = self.rng.random()
        main.ident = _get_ident()
        self.threads.append(main)
        self.by_ident[main.ident] = main
        self.current = main
        _active = self
        ev = sys.monitoring.events
        sys.monitoring.set_events(TOOL, ev.LINE | ev.CALL if self.within_lines else ev.LINE)
        try:
            try:
                return fn()
            except Killed:
                if self.failure is not None:
                    raise self.failure from None
                raise
        finally:
            sys.monitoring.set_events(TOOL, 0)
            self.killing = True
            # one at a time: unwind whatever is left
            for t in list(self.threads[1:]):
                if t.state != DONE:
                    self.current = t
                    t.raw.release()
                    self._reaper.acquire()
            main.state = DONE
            _idle_clock_ns = max(_idle_clock_ns, self.now)
            _active = None

    def signature(self):
        return tuple(self.trace)

    def live(self):
        return [t for t in self.threads[1:] if t.state != DONE]


def current_scheduler():
    s = _active
    if s is not None and s.by_ident.get(_get_ident()) is s.current:
        return s
    return None


def _caller():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.endswith(("/mon/sched.py", "/threading.py", "/queue.py")):
        f = f.f_back
    return f"{f.f_code.co_name}:{f.f_lineno}" if f else "?"


class CoopLock:
    __slots__ = ("_held", "_owner", "__weakref__")

    def __init__(self):
        self._held = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = current_scheduler()
        if s is None:
            if self._held:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("monitor: lock would block outside a scenario")
            self._held = True
            return True
        if s.killing:
            self._held = True
            return True
        s.point("acq", True)
        if not self._held:
            self._held = True
            return True
        if not blocking or timeout == 0:
            return False
        limit = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
        while True:
            left = None if limit is None else max(0.0, (limit - s.now) / 1e9)
            s.block(lambda: not self._held, left, "lock@" + _caller())
            if s.killing:
                self._held = True
                return True
            if not self._held:
                self._held = True
                return True
            if limit is not None and s.now >= limit:
                return False

    def release(self):
        s = current_scheduler()
        if not self._held:
            if s is not None and s.killing:
                return
            raise RuntimeError("release unlocked lock")
        self._held = False
        if s is not None:
            s.point("rel", True)

    def locked(self):
        return self._held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False

    def __repr__(self):
        return f"<CoopLock held={self._held}>"


class CoopRLock:
    def __init__(self):
        self._block = CoopLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _get_ident():
            s = current_scheduler()
            if s is not None and s.killing:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0

    # Condition support
    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        count, owner = self._count, self._owner
        self._count = 0
        self._owner = None
        self._block.release()
        return (count, owner)

    def _is_owned(self):
        return self._owner == _get_ident()

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0


def _start_new_thread(function, args, kwargs=None):
    s = current_scheduler()
    if s is None or s.killing:
        return _orig_start_new_thread(function, args, *([kwargs] if kwargs else []))
    return s.spawn(function, args, kwargs)


def _join(self, timeout=None):
    s = current_scheduler()
    vt = getattr(self, "_mon_vt", None)
    if s is None or vt is None or s.killing:
        if vt is not None and vt.state == DONE:
            return
        return _orig_thread_join(self, timeout)
    if vt is s.current:
        raise RuntimeError("cannot join current thread")
    if timeout is not None and timeout < 0:
        timeout = 0
    s.point("join", True)
    if vt.state != DONE:
        s.block(lambda: vt.state == DONE, timeout, "join@" + _caller())


def _is_alive(self):
    vt = getattr(self, "_mon_vt", None)
    if vt is not None:
        return vt.state != DONE
    return _orig_is_alive(self)


def _now_ns():
    global _idle_clock_ns
    s = _active
    if s is not None:
        return s.time_ns()
    _idle_clock_ns += 1000
    return _idle_clock_ns


def v_time_ns():
    return _now_ns()


def v_time():
    return _now_ns() / 1e9


def v_monotonic_ns():
    return _now_ns() - EPOCH_NS + 10**12


def v_monotonic():
    return v_monotonic_ns() / 1e9


def v_sleep(seconds):
    global _idle_clock_ns
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    s = current_scheduler()
    if s is None or s.killing:
        if _active is None:
            _idle_clock_ns += int(seconds * 1e9)
        return
    s.block(None, seconds, "sleep@" + _caller())


def advance(seconds):
    """Moves virtual time without blocking (harness use)."""
    global _idle_clock_ns
    if _active is not None:
        _active.now += int(seconds * 1e9)
    else:
        _idle_clock_ns += int(seconds * 1e9)


def _on_line(code, line):
    if not code.co_filename.startswith("/repo/"):
        return sys.monitoring.DISABLE
    s = _active
    if s is None or s.killing:
        return None
    cur = s.current
    if cur.ident != _get_ident():
        return None
    s.lines += 1
    s.point((code.co_name, line))
    return None


def _on_call(code, offset, func, arg):
    if not code.co_filename.startswith("/repo/"):
        return sys.monitoring.DISABLE
    return None


def _on_c_return(code, offset, func, arg):
    if not code.co_filename.startswith("/repo/"):
        return
    s = _active
    if s is None or s.killing or s.current.ident != _get_ident():
        return
    s.point((code.co_name, "+", offset))


_orig_excepthook = threading.excepthook


def _excepthook(args):
    if issubclass(args.exc_type, SystemExit):
        return
    s = _active
    if s is not None:
        if not s.killing:
            tb = "".join(traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback, limit=-6))
            s.thread_exceptions.append((getattr(args.thread, "name", "?"), repr(args.exc_value), tb))
        return
    _orig_excepthook(args)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    threading.excepthook = _excepthook
    threading._allocate_lock = CoopLock
    threading.Lock = CoopLock
    threading._CRLock = None
    threading._PyRLock = CoopRLock
    threading.RLock = CoopRLock
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    threading._time = v_monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = v_monotonic
    time.time = v_time
    time.time_ns = v_time_ns
    time.monotonic = v_monotonic
    time.monotonic_ns = v_monotonic_ns
    time.perf_counter = v_monotonic
    time.perf_counter_ns = v_monotonic_ns
    time.sleep = v_sleep
    sys.monitoring.use_tool_id(TOOL, "mon-sched")
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _on_line)
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.CALL, _on_call)
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.C_RETURN, _on_c_return)
