"""Seeded scheduling of real threads at bytecode granularity.

Every instruction of the library's Python code is a scheduling point
(sys.monitoring).  Exactly one thread runs at a time; which one is decided by
the plan alone: a seeded policy, or an explicit list of switches when a
schedule is replayed or minimised.  Locks the library creates are the
simulator's, so waiting for one is a scheduling decision and a cycle of
waiters is found at once.
"""

from __future__ import annotations

import dis
import random
import sys
import threading
import time
import types

TOOL = 4
HOT = ("STORE_GLOBAL", "STORE_SUBSCR", "STORE_ATTR", "DELETE_GLOBAL", "DELETE_SUBSCR",
       "DELETE_ATTR", "STORE_SLICE", "STORE_NAME", "STORE_DEREF", "LOAD_GLOBAL_MUT")
MUTATORS = {"append", "add", "update", "pop", "clear", "setdefault", "extend", "remove",
            "popitem", "insert", "move_to_end", "acquire", "release", "put", "get", "discard"}

_hot_cache: dict = {}


def hot_offsets(code):
    """Offsets next to writes to something other than a local variable."""
    got = _hot_cache.get(code)
    if got is None:
        got = set()
        ins = list(dis.get_instructions(code))
        for k, i in enumerate(ins):
            mark = i.opname in HOT or (i.opname in ("LOAD_ATTR", "LOAD_METHOD")
                                       and str(i.argval) in MUTATORS)
            if mark:
                for j in range(max(0, k - 2), min(len(ins), k + 4)):
                    got.add(ins[j].offset)
        _hot_cache[code] = got
    return got


class Abort(BaseException):
    """Unwinds a simulated thread."""


class Deadlock(Exception):
    pass


CURRENT = None           # the scheduler of the run in progress


class Sched:
    def __init__(self, n, policy, explicit=None, idle=1.5, stall=60.0):
        self.n = n
        self.rng = random.Random(policy["seed"])
        self.policy = policy
        self.explicit = None if explicit is None else {s: t for s, t in explicit}
        self.cv = threading.Condition()
        self.ids: dict = {}
        self.alive: list = list(range(n))
        self.waiting: dict = {}        # thread -> lock it waits for
        self.stuck: set = set()        # inside a real lock, or back from one
        self.parked: set = set()       # back from it, waiting to be let in
        self.cur = None
        self.steps = 0
        self.trace: list = []
        self.abort = None
        self.idle, self.stall = idle, stall
        self.outside = 0
        kind = policy["kind"]
        if kind == "pct":
            self.prio = self.rng.sample(range(n), n)
            self.change = sorted(self.rng.randrange(1, policy["span"])
                                 for _ in range(policy["depth"]))

    # ---- decisions
    def runnable(self):
        return [i for i in self.alive if i not in self.waiting and i not in self.stuck]

    def decide(self, hot):
        """Thread to run next at this step (current one is runnable)."""
        s = self.steps
        if self.explicit is not None:
            return self.explicit.get(s, self.cur)
        run = self.runnable()
        if not run:
            return None
        kind = self.policy["kind"]
        if kind == "random":
            return self.rng.choice(run) if self.rng.random() < self.policy["rate"] else self.cur
        if kind == "hot":
            rate = 0.5 if hot else self.policy["rate"]
            return self.rng.choice(run) if self.rng.random() < rate else self.cur
        if kind == "pct":
            while self.change and s >= self.change[0]:
                self.change.pop(0)
                low = min(self.prio) - 1
                if self.cur is not None:
                    self.prio[self.cur] = low
            return max(run, key=lambda i: self.prio[i])
        return self.cur                      # "serial"

    def pick_any(self):
        """The running thread cannot go on: somebody else must."""
        if self.stuck:                       # let those in that are back
            end = time.monotonic() + 0.4
            while self.stuck - self.parked and time.monotonic() < end:
                self.cv.wait(0.05)
            self.stuck -= self.parked
            self.parked.clear()
        run = self.runnable()
        if not run:
            if self.alive and not self.abort and len(self.stuck) == 0:
                self.abort = Deadlock("all callers wait for one another: " + ", ".join(
                    f"caller {t} for {l.name}" for t, l in sorted(self.waiting.items())))
            self.cur = None
        else:
            if self.explicit is not None:
                want = self.explicit.get(-self.steps - 1)
                nxt = want if want in run else run[0]
            elif self.policy["kind"] == "pct":
                nxt = max(run, key=lambda i: self.prio[i])
            else:
                nxt = self.rng.choice(run)
            self.trace.append((-self.steps - 1, nxt))
            self.cur = nxt
        self.cv.notify_all()

    # ---- thread side
    def me(self):
        return self.ids.get(threading.get_ident())

    def point(self, hot=False):
        i = self.me()
        if i is None:
            return
        if i in self.stuck or self.cur != i:
            with self.cv:                    # came back from a real lock
                if i in self.stuck:
                    self.parked.add(i)
                if self.cur is None:
                    self.pick_any()
                self.cv.notify_all()
                self.wait_turn(i)
        self.steps += 1
        nxt = self.decide(hot)
        if nxt is not None and nxt != i and nxt in self.runnable():
            with self.cv:
                self.trace.append((self.steps, nxt))
                self.cur = nxt
                self.cv.notify_all()
                self.wait_turn(i)
        if self.abort:
            raise Abort()

    def wait_turn(self, i):
        while self.cur != i and not self.abort:
            self.cv.wait(1.0)
        if self.abort:
            raise Abort()

    def block_on(self, lock):
        i = self.me()
        with self.cv:
            self.waiting[i] = lock
            self.pick_any()
            self.wait_turn(i)

    def unblock(self, lock):
        with self.cv:
            for t in [t for t, l in self.waiting.items() if l is lock]:
                del self.waiting[t]

    # ---- driver side
    def run(self, fns, limit=120.0):
        global CURRENT
        res: list = [None] * self.n

        def main(i):
            self.ids[threading.get_ident()] = i
            try:
                with self.cv:
                    self.wait_turn(i)
                res[i] = fns[i]()
            except Abort:
                res[i] = None
            finally:
                with self.cv:
                    if i in self.alive:
                        self.alive.remove(i)
                    self.waiting.pop(i, None)
                    self.stuck.discard(i)
                    self.parked.discard(i)
                    if self.cur == i or self.cur is None:
                        self.pick_any()

        threads = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        CURRENT = self
        try:
            for t in threads:
                t.start()
            with self.cv:
                self.pick_any()
                seen, since, cpu = None, time.monotonic(), time.process_time()
                while self.alive and not self.abort:
                    self.cv.wait(0.25)
                    mark = (self.steps, self.cur, tuple(self.alive), len(self.parked))
                    now, used = time.monotonic(), time.process_time()
                    if mark != seen or used - cpu > 0.05:
                        seen, since, cpu = mark, now, used
                        continue
                    # nothing moves and the process burns no time: the running
                    # thread sits in a lock outside the seam
                    if now - since < self.idle:
                        continue
                    if self.cur is not None and self.cur not in self.stuck:
                        others = [t for t in set(self.runnable()) | self.parked
                                  if t != self.cur]
                        if others:
                            self.outside += 1
                            self.stuck.add(self.cur)
                            self.pick_any()
                            since = now
                            continue
                    if now - since > self.stall:
                        self.abort = Deadlock("no caller makes progress")
                self.cv.notify_all()
            for t in threads:
                t.join(5.0)
        finally:
            CURRENT = None
        return res


# --------------------------------------------------------------- lock stand-ins
class WouldBlock(BaseException):
    """Outside a schedule: the only thread there is would wait for ever."""


class SimLock:
    count = 0
    taken = 0                # acquisitions so far, in any instance

    def __init__(self):
        SimLock.count += 1
        self.name = f"lock {SimLock.count}"
        self.owner = None
        self.depth = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        SimLock.taken += 1
        me = threading.get_ident()
        while True:
            if CURRENT is not None and CURRENT.me() is not None:
                CURRENT.point(True)
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking or timeout >= 0:
                return False
            if CURRENT is None or CURRENT.me() is None:
                raise WouldBlock(self.name)
            CURRENT.block_on(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            if CURRENT is not None and CURRENT.me() is not None:
                CURRENT.unblock(self)
                CURRENT.point(True)

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self.owner is not None


class SimRLock(SimLock):
    reentrant = True


def threading_standin():
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
    m.Lock, m.RLock = SimLock, SimRLock
    return m


# ------------------------------------------------------------------ monitoring
class Monitor:
    """Delivers one callback per executed library instruction."""

    def __init__(self):
        self.on = None
        M = sys.monitoring
        if M.get_tool(TOOL) is None:
            M.use_tool_id(TOOL, "sim")
        M.register_callback(TOOL, M.events.INSTRUCTION, self._event)

    def _event(self, code, offset):
        f = self.on
        if f is not None:
            f(code, offset)

    def watch(self, codes):
        ev = sys.monitoring.events.INSTRUCTION
        for c in codes:
            sys.monitoring.set_local_events(TOOL, c, ev)

    def forget(self, codes):
        for c in codes:
            sys.monitoring.set_local_events(TOOL, c, 0)


_monitor = None


def monitor():
    global _monitor
    if _monitor is None:
        _monitor = Monitor()
    return _monitor
