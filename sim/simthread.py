"""Cooperative threads: real threading.Thread bodies, one runs at a time, and a seeded scheduler decides
at every traced line of the repository's code (and at every lock operation) who runs next."""
import sys, threading, random

_RealLock, _RealRLock = threading.Lock, threading.RLock
REPO = '/repo/'
current = None          # the scheduler of this process, if any


class SimDeadlock(BaseException):
    pass


class SimLock:
    """Stands in for locks the repository creates; outside a scheduled run it is an ordinary lock"""
    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        s = current
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.depth += 1
                return True
            if not blocking or timeout == 0:
                return False
            if s is None or not s.mine():
                raise SimDeadlock("lock never released")
            s.block(self)

    def release(self):
        if self.depth == 0:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            s = current
            if s is not None and s.mine():
                s.wake(self)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()


def patch_locks():
    def mk(real, reentrant):
        def factory(*a, **kw):
            if sys._getframe(1).f_code.co_filename.startswith(REPO):
                return SimLock(reentrant)
            return real(*a, **kw)
        return factory
    threading.Lock = mk(_RealLock, False)
    threading.RLock = mk(_RealRLock, True)


class Sched:
    """Runs bodies as threads; switch probability per traced line from the seed"""
    def __init__(self, seed, prob=0.02, opcodes=False, maxsteps=3000000, only=None):
        self.rng = random.Random(seed)
        self.prob = prob
        self.opcodes = opcodes
        self.steps = 0
        self.switches = []
        self.maxsteps = maxsteps
        self.only = only

    def mine(self):
        return threading.get_ident() in self.idx

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(REPO):
            return None
        if self.only and not fn.endswith(self.only):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.point((frame.f_code.co_name, frame.f_lineno))
        return self.local

    def point(self, where=None):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise SimDeadlock("no progress after {} steps".format(self.steps))
        if self.rng.random() < self.prob:
            self.switch(where)

    def switch(self, where=None, blocked=False):
        me = self.idx[threading.get_ident()]
        cands = [i for i in range(len(self.bodies)) if i not in self.done and i not in self.blocked and (not blocked or i != me)]
        if not cands:
            if blocked:
                self.fail = "deadlock: every thread waits for a lock"
                for e in self.ev:
                    e.set()
                raise SimDeadlock(self.fail)
            return
        n = self.rng.choice(cands)
        if n == me:
            return
        self.switches.append((me, n, where))
        self.hand(me, n)

    def hand(self, me, n):
        self.ev[n].set()
        if me is not None:
            self.wait(me)

    def wait(self, me):
        if not self.ev[me].wait(60):
            raise SimDeadlock("scheduler stalled")
        self.ev[me].clear()
        if self.fail:
            raise SimDeadlock(self.fail)

    def block(self, lock):
        me = self.idx[threading.get_ident()]
        self.blocked[me] = lock
        try:
            self.switch(('lock',), blocked=True)
        finally:
            self.blocked.pop(me, None)

    def wake(self, lock):
        for k in [k for k, v in self.blocked.items() if v is lock]:
            del self.blocked[k]

    def run(self, bodies):
        """Returns [(value, exception)] per body"""
        global current
        self.bodies = bodies
        self.ev = [threading.Event() for _ in bodies]
        self.idx = {}
        self.done = set()
        self.blocked = {}
        self.fail = None
        res = [None] * len(bodies)
        alldone = threading.Event()

        def main(i):
            self.idx[threading.get_ident()] = i
            try:
                self.wait(i)
                sys.settrace(self.trace)
                try:
                    v = (bodies[i](), None)
                finally:
                    sys.settrace(None)
            except BaseException as e:
                v = (None, e)
            res[i] = v
            self.done.add(i)
            left = [k for k in range(len(bodies)) if k not in self.done]
            if not left:
                alldone.set()
                return
            cands = [k for k in left if k not in self.blocked]
            if not cands or self.fail:
                self.fail = self.fail or "deadlock: a finished thread kept a lock"
                for e in self.ev:
                    e.set()
                return
            self.ev[self.rng.choice(cands)].set()
        current = self
        ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(bodies))]
        for t in ths:
            t.start()
        self.ev[self.rng.randrange(len(bodies))].set()
        for t in ths:
            t.join(120)
            if t.is_alive():
                raise SimDeadlock("thread stuck")
        current = None
        return res


class Raiser:
    """Raises exc at the nth traced line of repository code in this thread (an asynchronous exception
    such as an interrupt or memory exhaustion)."""
    def __init__(self, nth, exc=KeyboardInterrupt, only=None, skip=()):
        self.nth = nth
        self.exc = exc
        self.count = 0
        self.only = only
        self.where = None
        self.skip = skip

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(REPO) or (self.only and not fn.endswith(self.only)) or frame.f_code.co_name in self.skip:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.count == self.nth:
                self.where = (frame.f_code.co_name, frame.f_lineno)
                sys.settrace(None)
                frame.f_trace = None
                raise self.exc("simulated")
        return self.local

    def run(self, fn, *a):
        sys.settrace(self.trace)
        try:
            return fn(*a)
        finally:
            sys.settrace(None)
