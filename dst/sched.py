"""The deterministic scheduler.

Caller threads are real threads of which exactly one runs at any moment; at
every scheduling point of the instrumented code the plan decides who goes on.
The plan is a pure function of its seed (or an explicit list of switches), so a
run is a pure function of (source tree, case).
"""
import _thread
import random
import threading
import traceback

CURRENT = [None]
_REAL_ALLOCATE = _thread.allocate_lock
_get_ident = _thread.get_ident


def S(site):
    run = CURRENT[0]
    if run is not None:
        run.point(site)


def V(value, site):
    run = CURRENT[0]
    if run is not None:
        run.point(site)
    return value


def W(value, site):
    """``value`` is about to be changed by the library."""
    run = CURRENT[0]
    if run is not None:
        run.written(value, site)
    return value


class SimAbort(BaseException):
    """Unwinds a task when the run is over."""


class SimStuck(BaseException):
    """An operation exceeded its step budget."""


class SimDeadlock(BaseException):
    """No task can go on."""


class SimCrash(BaseException):
    """The simulated process died here."""


class Cancelled(BaseException):
    """An asynchronous cancellation, as delivered by task libraries."""


INTERRUPTS = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'SystemExit': SystemExit,
    'Cancelled': Cancelled,
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'SimCrash': SimCrash,
}


# ---------------------------------------------------------------- plans
class SerialPlan(object):
    def decide(self, run, task, site):
        return None

    def next_task(self, run, candidates):
        return candidates[0]


class RandomPlan(object):
    """Switches at every point with a fixed probability."""

    def __init__(self, seed, p):
        self.rng = random.Random(seed)
        self.p = p

    def decide(self, run, task, site):
        if self.rng.random() < self.p:
            c = run.runnable(task)
            if c:
                return c[int(self.rng.random() * len(c))]

    def next_task(self, run, candidates):
        return candidates[int(self.rng.random() * len(candidates))]


class PctPlan(object):
    """Priorities with d change points (probabilistic concurrency testing)."""

    def __init__(self, seed, n, d, horizon):
        self.rng = random.Random(seed)
        self.prio = list(range(d + 1, d + 1 + n))
        self.rng.shuffle(self.prio)
        horizon = max(horizon, 2)
        self.changes = {}
        for i in range(d):
            self.changes[1 + int(self.rng.random() * horizon)] = i

    def _best(self, tasks):
        best = None
        for t in tasks:
            if best is None or self.prio[t.tid] > self.prio[best.tid]:
                best = t
        return best

    def decide(self, run, task, site):
        level = self.changes.get(run.step)
        if level is None:
            return None
        self.prio[task.tid] = level
        c = run.runnable(task)
        if not c:
            return None
        best = self._best(c)
        return best if self.prio[best.tid] > level else None

    def next_task(self, run, candidates):
        return self._best(candidates)


class SitePlan(object):
    """Switches whenever one of a seeded subset of code locations is passed."""

    def __init__(self, seed, frac, p):
        self.rng = random.Random(seed)
        self.salt = self.rng.getrandbits(30)
        self.cut = int(frac * 65536)
        self.p = p

    def decide(self, run, task, site):
        h = ((site + 7) * 2654435761 + self.salt * 40503) & 0xffffffff
        h = ((h >> 15) ^ h) * 2246822519 & 0xffffffff
        if (h >> 13) & 0xffff < self.cut and self.rng.random() < self.p:
            c = run.runnable(task)
            if c:
                return c[int(self.rng.random() * len(c))]

    def next_task(self, run, candidates):
        return candidates[int(self.rng.random() * len(candidates))]


class Strike(object):
    """Interrupts calls right after they changed something."""

    def __init__(self, seed, sites, p, names):
        self.rng = random.Random(seed)
        self.sites = set(sites) if sites else None
        self.p = p
        self.names = names

    def draw(self, site):
        if (self.sites is None or site in self.sites) and self.rng.random() < self.p:
            return self.names[int(self.rng.random() * len(self.names))]


class StorePlan(object):
    """Switches after stores to objects that several operations were seen to change."""

    def __init__(self, seed, sites, p, base):
        self.rng = random.Random(seed)
        self.sites = set(sites)
        self.p = p
        self.base = base

    def decide(self, run, task, site):
        p = self.base
        if task.stored in self.sites or site in self.sites:
            p = self.p
        if self.rng.random() < p:
            c = run.runnable(task)
            if c:
                return c[int(self.rng.random() * len(c))]

    def next_task(self, run, candidates):
        return candidates[int(self.rng.random() * len(candidates))]


class ReplayPlan(object):
    """An explicit list of switches [tid, opidx, opstep, to] and end choices."""

    def __init__(self, switches):
        self.at = {}
        self.ends = {}
        for entry in switches:
            if entry[1] == 'end':
                self.ends.setdefault(entry[0], []).append(entry[2])
            else:
                self.at[(entry[0], entry[1], entry[2])] = entry[3]

    def decide(self, run, task, site):
        to = self.at.get((task.tid, task.opidx, task.opstep))
        if to is not None and to != task.tid:
            for t in run.runnable(task):
                if t.tid == to:
                    return t

    def next_task(self, run, candidates):
        prev = run.cur.tid if run.cur is not None else -1
        queue = self.ends.get(prev)
        if queue:
            to = queue.pop(0)
            for t in candidates:
                if t.tid == to:
                    return t
        return candidates[0]


def make_plan(desc, ntasks, horizon):
    kind = desc[0]
    if kind == 'serial' or ntasks == 1 and kind != 'replay':
        return SerialPlan()
    if kind == 'random':
        return RandomPlan(desc[1], desc[2])
    if kind == 'pct':
        return PctPlan(desc[1], ntasks, desc[2], horizon)
    if kind == 'site':
        return SitePlan(desc[1], desc[2], desc[3])
    if kind == 'store':
        return StorePlan(desc[1], desc[2], desc[3], desc[4])
    if kind == 'replay':
        return ReplayPlan(desc[1])
    raise ValueError(desc)


def gen_plan(rng):
    r = rng.random()
    seed = rng.getrandbits(30)
    if r < 0.35:
        return ['random', seed, rng.choice([0.01, 0.05, 0.15, 0.4])]
    if r < 0.7:
        return ['pct', seed, rng.choice([1, 2, 3, 5, 8])]
    return ['site', seed, rng.choice([0.005, 0.02, 0.08]), rng.choice([0.5, 1.0])]


# ---------------------------------------------------------------- runs
class Task(object):
    def __init__(self, tid):
        self.tid = tid
        self.lock = _REAL_ALLOCATE()
        self.lock.acquire()
        self.ident = None
        self.opidx = -1
        self.opstep = 0
        self.oplimit = None
        self.nopreempt = 0
        self.stored = None          # the code location of a store since the last scheduling point
        self.armed = False
        self.interrupts = {}        # opstep -> exception name, for the current operation
        self.moves = {}             # opstep -> callable, for the current operation
        self.waiting = None
        self.done = False
        self.error = None
        self.data = None


class _Atomic(object):
    def __init__(self, run):
        self.run = run

    def __enter__(self):
        self.run.cur.nopreempt += 1
        self.task = self.run.cur

    def __exit__(self, *args):
        self.task.nopreempt -= 1


class Run(object):
    def __init__(self, ntasks, plan, limit=4000000):
        self.tasks = [Task(i) for i in range(ntasks)]
        self.plan = plan
        self.cur = None
        self.step = 0
        self.limit = limit
        self.switches = []
        self.inter = 0          # rolling hash of the interleaving
        self.nswitch = 0
        self.over = False
        self.main = _REAL_ALLOCATE()
        self.main.acquire()
        self.log = None
        self.deadlocked = False
        self.fired = {}
        self.changed = {}       # id -> (object, operation that first changed it)
        self.strike = None
        self.struck = []
        self.hot = set()        # code locations that changed an object another operation had changed

    def written(self, value, site):
        t = self.cur
        if t is None or t.nopreempt or not t.armed or t.ident != _get_ident():
            return
        t.stored = site
        first = self.changed.get(id(value))
        if first is None:
            self.changed[id(value)] = (value, t.tid, t.opidx, site)
        elif first[1] != t.tid or first[2] != t.opidx:
            self.hot.add(site)
            self.hot.add(first[3])

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def atomic(self):
        return _Atomic(self)

    def runnable(self, exclude=None):
        return [t for t in self.tasks if not t.done and t is not exclude
            and (t.waiting is None or t.waiting.available(t))]

    def point(self, site):
        t = self.cur
        if t is None or t.nopreempt or t.ident != _get_ident():
            return
        if self.over:
            raise SimAbort()
        self.step += 1
        t.opstep += 1
        if self.log is not None:
            self.log.append((t.tid, t.opidx, t.opstep, site))
        if t.moves:
            move = t.moves.pop(t.opstep, None)
            if move is not None:
                move()
        if t.armed:
            if t.interrupts:
                name = t.interrupts.pop(t.opstep, None)
                if name is not None:
                    self.count('interrupt:' + name)
                    if t.data is not None:
                        t.data.setdefault('hits', {}).setdefault(t.opidx, []).append(name)
                    raise INTERRUPTS[name]('injected')
            if self.strike is not None and t.stored is not None and t.oplimit is not None:
                name = self.strike.draw(t.stored)
                if name is not None:
                    t.stored = None
                    self.struck.append([t.tid, t.opidx, t.opstep, name])
                    self.count('interrupt:' + name)
                    if t.data is not None:
                        t.data.setdefault('hits', {}).setdefault(t.opidx, []).append(name)
                    raise INTERRUPTS[name]('injected')
            if t.oplimit is not None and t.opstep > t.oplimit:
                raise SimStuck()
        if self.step > self.limit:
            raise SimStuck()
        nxt = self.plan.decide(self, t, site)
        t.stored = None
        if nxt is not None and nxt is not t:
            self.switches.append([t.tid, t.opidx, t.opstep, nxt.tid])
            self.nswitch += 1
            self.inter = (self.inter * 1000003 ^ (site + 2) * 31 ^ nxt.tid) & 0xffffffffffff
            self._handoff(t, nxt)

    def _handoff(self, t, nxt):
        self.cur = nxt
        nxt.waiting = None
        nxt.lock.release()
        t.lock.acquire()
        if self.over:
            raise SimAbort()

    def block(self, lock):
        """The current task cannot go on until ``lock`` is available."""
        t = self.cur
        while not lock.available(t):
            c = self.runnable(t)
            if not c:
                self.deadlocked = True
                raise SimDeadlock()
            t.waiting = lock
            nxt = self.plan.next_task(self, c)
            self.switches.append([t.tid, 'end', nxt.tid])
            self._handoff(t, nxt)
            t.waiting = None

    # -- execution
    def execute(self, bodies, timeout=120):
        for task, body in zip(self.tasks, bodies):
            _thread.start_new_thread(self._main, (task, body))
        CURRENT[0] = self
        try:
            first = self.plan.next_task(self, list(self.tasks))
            self.switches.append([-1, 'end', first.tid])
            self.cur = first
            first.lock.release()
            if not self.main.acquire(True, timeout):
                raise RuntimeError('harness: run did not finish within %ss of real time' % timeout)
        finally:
            CURRENT[0] = None
        for t in self.tasks:
            if t.error:
                raise RuntimeError('harness: task failed\n' + t.error)

    def _main(self, task, body):
        task.lock.acquire()
        task.ident = _get_ident()
        try:
            if not self.over:
                body(task)
        except SimAbort:
            pass
        except BaseException:
            task.error = traceback.format_exc()
        task.done = True
        c = self.runnable(task)
        if not c:
            rest = [t for t in self.tasks if not t.done]
            if rest:
                # all remaining tasks wait for something nobody will release
                self.deadlocked = True
                self.over = True
                c = rest[:1]
        if c:
            nxt = c[0] if self.over else self.plan.next_task(self, c)
            self.switches.append([task.tid, 'end', nxt.tid])
            self.cur = nxt
            nxt.waiting = None
            nxt.lock.release()
        else:
            self.cur = None
            self.main.release()


class SoloRun(Run):
    """One task executed on the calling thread."""

    def __init__(self, limit=2000000):
        Run.__init__(self, 1, SerialPlan(), limit)

    def execute(self, bodies, timeout=None):
        t = self.tasks[0]
        t.ident = _get_ident()
        self.cur = t
        CURRENT[0] = self
        try:
            bodies[0](t)
        finally:
            CURRENT[0] = None


# ---------------------------------------------------------------- locks
class SimLock(object):
    """Stands in for threading.Lock in code under simulation."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0
        self.real = _REAL_ALLOCATE()

    def available(self, task):
        return self.owner is None or (self.reentrant and self.owner is task)

    def acquire(self, blocking=True, timeout=-1):
        run = CURRENT[0]
        if run is None or run.cur is None or run.cur.ident != _get_ident():
            return self.real.acquire(blocking, timeout)
        run.point(-3)
        t = run.cur
        if not self.available(t):
            if not blocking or timeout >= 0:
                return False
            run.block(self)
        self.owner = t
        self.depth += 1
        return True

    __enter__ = acquire

    def release(self):
        run = CURRENT[0]
        if self.owner is None:
            return self.real.release()
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        if run is not None:
            run.point(-3)

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self.owner is not None or self.real.locked()

    def _is_owned(self):
        return self.owner is not None


class SimRLock(SimLock):
    reentrant = True

    def __init__(self):
        SimLock.__init__(self)
        self.real = threading._PyRLock() if False else _REAL_RLOCK()

    def locked(self):
        return self.owner is not None

    def _release_save(self):
        state = (self.owner, self.depth)
        self.owner, self.depth = None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.owner, self.depth = state

    def _is_owned(self):
        run = CURRENT[0]
        return run is not None and self.owner is run.cur


_REAL_RLOCK = threading.RLock


def patch_locks():
    """Locks created by the library (now or in a later version) are decided here."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
