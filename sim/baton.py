"""Cooperative scheduling of real threads: one runs at a time, the plan says which.

Every decision point (a statement boundary, a wait for a lock, a traced line of
Python) asks the scheduler who runs next.  The default is to go on with the
current thread; the plan lists the decisions at which another thread takes
over, and the stalls.  Time is simulated: a thread that sleeps is not run
before its time, and when all sleep the clock jumps.
"""

from __future__ import annotations

import sys
import threading

from sim.core import HarnessError, Violation


ACTIVE = None  # the baton of the run under way


class SimLock:
    """A lock made by gaspra's code: waiting for it is a decision, not a real wait."""

    reentrant = False

    def __init__(self):
        self.real = REAL_LOCK()
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        limit = None if timeout is None or timeout < 0 else timeout
        waited = 0.0
        while not self.real.acquire(False):
            if not blocking or (limit is not None and waited >= limit):
                return False
            if ACTIVE is None or ACTIVE.me() is None:
                return self.real.acquire(True, -1 if limit is None else limit)
            if ACTIVE.over:
                raise Stop()
            ACTIVE.sleep(0.001)
            waited += 0.001
            if ACTIVE.decisions > ACTIVE.limit:
                raise Violation("no-progress", "a lock of gaspra's is never released")
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.reentrant:
            if self.owner != threading.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self.depth -= 1
            if self.depth:
                return
        self.owner = None
        self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    reentrant = True


REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock


def install_locks():
    """Locks that gaspra makes are the simulator's (before gaspra is imported)."""

    def factory(sim, real):
        def make(*args):
            if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "gaspra":
                return sim()
            return real(*args)

        return make

    threading.Lock = factory(SimLock, REAL_LOCK)
    threading.RLock = factory(SimRLock, REAL_RLOCK)


class Stop(BaseException):
    """Unwinds a thread when the run is over."""


class Baton:
    def __init__(self, clock, preempt, stalls=(), limit=2_000_000, own=()):
        self.clock = clock  # object with attribute now
        self.preempt = {int(k): v for k, v in preempt}
        # the same by the count of the thread's own decisions
        self.own = {(i, k): v for i, k, v in own}
        self.counts = []
        self.stalls = {int(k): s for k, s in stalls}
        self.limit = limit
        self.decisions = 0
        self.switches = 0
        self.threads = []
        self.gates = []
        self.wake = []
        self.done = []
        self.index = {}
        self.current = None
        self.finished = threading.Event()
        self.errors = []
        self.over = False
        self.stall_until = 0.0
        self.on_switch = None

    def spawn(self, f):
        i = len(self.threads)
        gate = threading.Semaphore(0)
        self.gates.append(gate)
        self.wake.append(0.0)
        self.done.append(False)
        self.counts.append(0)

        def body():
            gate.acquire()
            try:
                if not self.over:
                    f()
            except Stop:
                pass
            except BaseException as e:
                self.errors.append((i, e))
            finally:
                self.done[i] = True
                self.hand_over(i)

        t = threading.Thread(target=body, daemon=True)
        self.threads.append(t)
        return i

    def run(self, timeout=50.0):
        global ACTIVE
        ACTIVE = self
        for i, t in enumerate(self.threads):
            t.start()
            self.index[t.ident] = i
        self.current = 0
        self.gates[0].release()
        if not self.finished.wait(timeout):
            self.over = True
            raise Violation("no-progress", f"the threads did not finish ({self.decisions} decisions)")
        for t in self.threads:
            t.join(5.0)
        for _, e in self.errors:
            if isinstance(e, (Violation, HarnessError)):
                raise e
        if self.errors:
            i, e = self.errors[0]
            raise HarnessError(f"thread {i}: {type(e).__name__}: {e}")

    def me(self):
        return self.index.get(threading.get_ident())

    def pick(self, i, wanted=None):
        """The thread to run next, advancing the clock if all sleep."""
        alive = [j for j in range(len(self.threads)) if not self.done[j]]
        if not alive:
            return None
        ready = [j for j in alive if self.wake[j] <= self.clock.now]
        if not ready:
            j = min(alive, key=lambda j: (self.wake[j], j))
            self.clock.now = max(self.clock.now, self.wake[j])
            return j
        if wanted is not None and ready:
            return ready[wanted % len(ready)]
        if i in ready:
            return i
        later = [j for j in ready if j > i]
        return later[0] if later else ready[0]

    def hand_over(self, i):
        j = self.pick(i)
        if j is None:
            self.finished.set()
            return
        self.current = j
        self.gates[j].release()

    def switch_to(self, i, j):
        if j == i:
            return
        self.switches += 1
        self.current = j
        self.gates[j].release()
        self.gates[i].acquire()
        if self.over:
            raise Stop()

    def point(self, what=None):
        """A decision point of the current thread."""
        i = self.me()
        if i is None or self.done[i]:
            return
        n = self.decisions
        self.decisions += 1
        if n > self.limit:
            raise Violation("no-progress", f"no end after {n} decisions")
        stall = self.stalls.get(n)
        if stall is not None:
            self.wake[i] = self.clock.now + stall
            self.stall_until = max(self.stall_until, self.wake[i])
            self.switch_to(i, self.pick(i))
            return
        wanted = self.preempt.get(n)
        if self.own:
            m = self.counts[i]
            self.counts[i] = m + 1
            wanted = self.own.get((i, m), wanted)
        if wanted is not None:
            self.switch_to(i, self.pick(i, wanted))

    def sleep(self, seconds):
        """The current thread waits; the others run meanwhile.

        Called from inside SQLite (a busy wait): must not raise.
        """
        i = self.me()
        if i is None or self.done[i] or self.over:
            self.clock.now += seconds
            return
        self.decisions += 1
        self.wake[i] = self.clock.now + seconds
        j = self.pick(i)
        if j != i:
            self.switches += 1
            self.current = j
            self.gates[j].release()
            self.gates[i].acquire()
