"""Deterministic simulator core.

One integer (the seed) decides everything: every scheduling decision, delay, fault and generated
operation is one draw from a `Tape`.  A recorded tape replayed through the same code gives the
same execution; drawing past the end of a replayed tape gives 0, and 0 always means the simplest
option (no preemption, no fault, smallest size), which is what the minimiser relies on.

Tasks are greenlets inside one OS thread, so exactly one runs at a time and the simulator alone
chooses which.  Time is simulated: a task that sleeps or waits for a message sits in an event heap
ordered by (time, sequence number), and the clock jumps when nothing is runnable.
"""
import hashlib
import heapq
import random
import sys
import traceback

import greenlet


class Violation(Exception):
    """The property under test does not hold in this run."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class HarnessGap(BaseException):
    """The simulator lacks something the code asked for: an error of the check, never a verdict."""


class Stop(BaseException):
    """Raised inside a task to unwind it (simulated crash, or end of the run)."""


class SimFault(Exception):
    """Marker base for exceptions the simulator injects."""


class InjectedMemoryError(MemoryError, SimFault):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class Tape:
    def __init__(self, seed=None, values=None):
        self.seed = seed
        self.replay = values
        self.rng = random.Random(seed) if values is None else None
        self.values = []
        self.labels = []
        self.limits = []

    def choose(self, n, label="?"):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.values)
        if self.replay is None:
            v = self.rng.randrange(n)
        elif i < len(self.replay):
            v = self.replay[i]
            if v >= n:
                v = n - 1
        else:
            v = 0
        self.values.append(v)
        self.labels.append(label)
        self.limits.append(n)
        return v

    def chance(self, num, den, label="?"):
        """True with probability num/den; False when zeroed."""
        return self.choose(den, label) >= den - num

    def pick(self, seq, label="?"):
        return seq[self.choose(len(seq), label)]

    def real(self, lo, hi, label="?"):
        """A number in a 1/1024 grid of [lo, hi]; `lo` when zeroed."""
        return lo + (hi - lo) * self.choose(1025, label) / 1024.0

    def geom(self, label="?", maxexp=14):
        """A positive gap, log-uniform in [1, 2**maxexp]; 0 means 'never'."""
        e = self.choose(maxexp + 1, label + ".e")
        if e == 0:
            return 0
        lo = 1 << (e - 1)
        return lo + self.choose(lo, label + ".m")

    def np_rng(self, label="data"):
        """A numpy RandomState seeded from one draw."""
        import numpy as np
        return np.random.RandomState(self.choose(1 << 20, label))


class Task:
    __slots__ = ("name", "fn", "g", "state", "result", "error", "wake", "waiting", "crashed", "steps",
                 "tid", "atomic")

    def __init__(self, name, fn, tid):
        self.name, self.fn, self.tid = name, fn, tid
        self.state = "ready"       # ready | blocked | done
        self.result = self.error = self.waiting = None
        self.wake = 0
        self.crashed = False
        self.steps = 0
        self.atomic = 0


class Sim:
    """Scheduler, clock, event heap, fault plan and trace of one run."""

    current = None     # the Sim being run (one per process at a time)

    def __init__(self, tape, max_steps=200000, max_yields=3000000):
        self.tape = tape
        self.now = 0            # simulated nanoseconds
        self.seq = 0
        self.heap = []
        self.tasks = []
        self.cur = None
        self.main = None
        self.steps = 0          # scheduling decisions
        self.yields = 0         # yield points passed
        self.max_steps, self.max_yields = max_steps, max_yields
        self.preempt_in = 0     # yield points until the next preemption (0: never)
        self.preemptible = False
        self.faults_fired = {}
        self.probes = {}
        self.trace = []
        self.trace_cap = 400
        self.ihash = hashlib.blake2b(digest_size=8)   # interleaving measure
        self.fault_at = None    # (yield index, exception factory, kind)
        self.fault_task = None
        self.fault_count = 0
        self.clock_skew = 0

    # ---------------------------------------------------------------- bookkeeping
    def fired(self, kind):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + 1
        self.log("fault", kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def log(self, *what):
        if len(self.trace) < self.trace_cap:
            self.trace.append([self.now, self.cur.name if self.cur else "-"] + [str(w) for w in what])

    def mark(self, what):
        """Feed the measure of distinct interleavings."""
        self.ihash.update(f"{self.cur.name if self.cur else '-'}|{what};".encode())

    # ---------------------------------------------------------------- tasks and time
    def spawn(self, name, fn):
        t = Task(name, fn, len(self.tasks))
        # a task started by a task still returns to the scheduler when it ends
        t.g = greenlet.greenlet(lambda: self._body(t), self.main or greenlet.getcurrent())
        self.tasks.append(t)
        return t

    def _body(self, t):
        try:
            t.result = t.fn()
        except Stop:
            t.crashed = True
        except greenlet.GreenletExit:
            t.crashed = True
        except HarnessGap:
            raise
        except BaseException as e:     # noqa - kept for the oracle
            t.error = e
        t.state = "done"

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + max(0, int(delay)), self.seq, fn))

    def enable_preemption(self, maxexp=12):
        self.preemptible = True
        self._maxexp = maxexp
        self.preempt_in = self.tape.geom("gap", maxexp)

    def yield_point(self, label=None, faultable=False):
        """Called by instrumented code before a statement, and by stand-ins."""
        self.yields += 1
        t = self.cur
        if t is None:
            # code running outside any task (set-up or oracle): only direct faults apply
            if faultable and self.fault_at is not None:
                self._maybe_fault(label)
            return
        t.steps += 1
        if self.yields > self.max_yields:
            raise Violation("no-progress", f"run exceeded {self.max_yields} yield points")
        if faultable and self.fault_at is not None and not t.atomic:
            self._maybe_fault(label)
        if self.preemptible and self.preempt_in and not t.atomic:
            self.preempt_in -= 1
            if self.preempt_in == 0:
                self.mark(label)
                self.switch()
                self.preempt_in = self.tape.geom("gap", self._maxexp)

    def _maybe_fault(self, label):
        if self.fault_task is not None and self.cur is not self.fault_task:
            return
        self.fault_count += 1
        n, make, kind = self.fault_at
        if self.fault_count == n:
            self.fault_at = None
            self.fired(kind)
            self.log("raise", kind, label)
            raise make()

    def switch(self):
        """Give up the processor, stay runnable."""
        self.main.switch()
        if self.cur is not None and self.cur.crashed:
            raise Stop()

    def block(self, why):
        """Wait until `wake` is called on this task."""
        t = self.cur
        t.state, t.waiting = "blocked", why
        self.main.switch()
        if t.crashed:
            raise Stop()
        t.waiting = None

    def wake_task(self, t):
        if t.state == "blocked":
            t.state = "ready"

    def sleep(self, delay):
        t = self.cur
        if t is None:
            self.now += int(delay)
            return
        self.at(delay, lambda: self.wake_task(t))
        self.block("sleep")

    def crash(self, t):
        """Unwind a task at its current suspension point."""
        if t.state == "done":
            return
        t.crashed = True
        t.state = "ready"

    def run(self):
        """Run until every task is done.  Raises Violation on deadlock or a runaway run."""
        prev, Sim.current = Sim.current, self
        self.main = greenlet.getcurrent()
        try:
            while True:
                while self.heap and self.heap[0][0] <= self.now:
                    heapq.heappop(self.heap)[2]()
                ready = [t for t in self.tasks if t.state == "ready"]
                if not ready:
                    if self.heap:
                        self.now = max(self.now, self.heap[0][0])
                        continue
                    stuck = [t for t in self.tasks if t.state == "blocked"]
                    if stuck:
                        dead = [t for t in self.tasks if t.error is not None]
                        if dead and origin_any(dead[0].error):
                            raise Violation("stuck-after-" + type(dead[0].error).__name__,
                                            f"{dead[0].name} ended with {describe(dead[0].error)}; " + "; ".join(
                                                f"{t.name} waits for {t.waiting}" for t in stuck))
                        raise Violation("stuck", "; ".join(f"{t.name} waits for {t.waiting}" for t in stuck))
                    return
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Violation("no-progress", f"run exceeded {self.max_steps} scheduling steps")
                # 0 keeps the most recently run task, then lowest id: fewest switches
                if len(ready) > 1:
                    if self.cur_last in ready:
                        ready.remove(self.cur_last)
                        ready.insert(0, self.cur_last)
                    t = ready[self.tape.choose(len(ready), "run")]
                else:
                    t = ready[0]
                if t is not self.cur_last:
                    self.ihash.update(b"%d," % t.tid)
                self.cur_last = t
                self.cur = t
                if t.crashed and not t.g:      # never started
                    t.state = "done"
                else:
                    t.g.switch()
                self.cur = None
                self.now += 1
                if isinstance(t.error, Violation):
                    raise t.error
        finally:
            self.cur = None
            Sim.current = prev
            self._reap()

    cur_last = None

    def _reap(self):
        for t in self.tasks:
            if t.g and not t.g.dead:
                t.crashed = True
                self.cur = t
                for _ in range(50):
                    try:
                        t.g.throw(greenlet.GreenletExit)
                    except BaseException:
                        pass
                    if t.g.dead:
                        break
        self.cur = None

    # ---------------------------------------------------------------- faults
    def plan_fault(self, position, make, kind, task=None):
        self.fault_at = (position, make, kind) if position else None
        self.fault_task = task
        self.fault_count = 0


def yield_point(label=None, faultable=False):
    s = Sim.current
    if s is not None:
        s.yield_point(label, faultable)


class SimLock:
    """Stand-in for threading.Lock/RLock and scipy's ReentrancyLock, owned by simulated tasks."""

    def __init__(self, reentrant=False, name="lock", raise_on_reentry=False):
        self.reentrant, self.name = reentrant, name
        self.owner, self.depth, self.waiters = None, 0, []
        self.raise_on_reentry = raise_on_reentry

    def _me(self):
        s = Sim.current
        return (s.cur if s is not None and s.cur is not None else "main")

    def acquire(self, blocking=True, timeout=-1):
        s = Sim.current
        me = self._me()
        if me != "main":
            s.yield_point("lock")
        while self.depth and not (self.reentrant and self.owner is me):
            if self.owner is me and self.raise_on_reentry:
                raise RuntimeError("ARPACK is not re-entrant")
            if not blocking:
                return False
            if me == "main":
                raise Violation("lock-not-released", f"{self.name} still held by {self.owner}")
            self.waiters.append(me)
            s.block(f"lock {self.name}")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            w, self.waiters = self.waiters, []
            s = Sim.current
            for t in w:
                if s is not None:
                    s.wake_task(t)

    def locked(self):
        return bool(self.depth)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def decorate(self, func):
        def caller(*a, **k):
            with self:
                return func(*a, **k)
        return caller


def origin_any(exc):
    return not isinstance(exc, (HarnessGap, Violation))


def origin(exc, root):
    """True when the traceback of `exc` passes through a file below `root` (code under test)."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    last = tb[-1] if tb else None
    where = f" at {last.filename.rsplit('/', 1)[-1]}:{last.name}" if last else ""
    return f"{type(exc).__name__}: {str(exc)[:300]}{where}"
