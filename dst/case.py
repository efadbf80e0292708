"""Executes cases: the simulated run, and the same operations run alone.

A case is a JSON document (see gen.py).  Executing it is a pure function of the
source tree and the case.
"""
import json
import sys
import warnings

from dst import fsim, hooks, instrument, sched, simtime
from dst.build import build
from dst.hooks import CallbackFault
from dst.ops import OPS, Ids
from dst.vals import canon, dec, snapshot

warnings.simplefilter('ignore')

EXCEPTIONS = {
    'CallbackFault': CallbackFault, 'ValueError': ValueError, 'TypeError': TypeError,
    'KeyError': KeyError, 'AttributeError': AttributeError, 'IndexError': IndexError,
    'RuntimeError': RuntimeError, 'StopIteration': StopIteration, 'OSError': OSError,
    'ImportError': ImportError,
}


POISON = '!boom!'           # preprocessors fail when they are given this
POISON_IN = '!boom-in!'     # or a container holding this


class HarnessError(Exception):
    pass


class Stream(object):
    """Stands in for a standard stream while operations run."""

    def __init__(self, failing):
        self.failing = failing
        self.text = []
        self.by = []

    def write(self, text):
        run = sched.CURRENT[0]
        if run is not None and run.cur is not None:
            self.by.append((run.cur.tid, run.cur.opidx))
        self.text.append(text)
        if self.failing:
            raise OSError(5, 'standard stream is gone')
        return len(text)

    def flush(self):
        if self.failing and self.text:
            raise OSError(5, 'standard stream is gone')

    def isatty(self):
        return False

    encoding = 'utf-8'
    errors = 'strict'
    closed = False


class Ctx(object):
    """Everything the simulated callers of one run share."""

    def __init__(self, case, world, fs=None):
        self.case = case
        self.world = world
        self.fs = fs
        self.run = None
        self.solo = None
        self.subs = {}
        self.places = {}
        self.nested = []
        self.fired = {}
        self.cbfaults = {}
        self.cbcount = {}
        self.fault_log = {}
        self.late = {}
        self.registered = {}
        self.ids = Ids()
        if case.get('ids'):
            world.mod('scheme.util').id = self.ids
        for tid, opidx, n, action in case.get('cbfaults', ()):
            self.cbfaults[(tid, opidx, n)] = action
        # shared objects are built before any caller starts
        for i in range(len(case.get('places', ()))):
            self.placeholder(i)
        for i in range(len(case.get('subs', ()))):
            self.subfield(i)
        self.schemas = [build(s, world, self) for s in case.get('schemas', ())]
        self.subfields('DEF', 'Definition')
        self.subfields('SUR', 'Surrogate')
        self.args = [dec(a, world, self) for a in case.get('args', ())]
        self.before = [snapshot(a) for a in self.args] if case.get('watch_args') else []
        for p, spec in case.get('defined', ()):
            self.placeholder(p).define(build(spec, world, self))

    # -- shared objects
    def subfield(self, i):
        if i not in self.subs:
            self.subs[i] = build(self.case['subs'][i], self.world, self)
        return self.subs[i]

    def subfields(self, key, cls):
        if key not in self.subs:
            import scheme.fields
            self.subs[key] = getattr(self.world.scheme, cls)()
        return self.subs[key]

    def placeholder(self, i):
        if i not in self.places:
            self.places[i] = self.world.scheme.Undefined()
        return self.places[i]

    def missing(self, what):
        return HarnessMissing(what)

    # -- resolving operands
    def target(self, task, o):
        s = o['s']
        if isinstance(s, int):
            f = self.schemas[s]
        elif s.startswith('slot:'):
            f = task.data['slots'].get(s[5:])
            if f is None:
                raise HarnessMissing(s)
        elif s.startswith('sub:'):
            f = self.subfield(int(s[4:]))
        elif s.startswith('cls:'):
            f = dec({'%obj': s[4:]}, self.world).schema
        elif s == '@DEF':
            f = self.subfields('DEF', 'Definition')
        elif s == '@SUR':
            f = self.subfields('SUR', 'Surrogate')
        elif s.startswith('@'):
            f = getattr(self.world.scheme, s[1:])
        else:
            raise HarnessError(s)
        for key in o.get('path', ()) if 'fmt' not in o and o['op'] not in ('write_file', 'read_file') else ():
            try:
                f = step(f, key)
            except (KeyError, IndexError, TypeError, AttributeError):
                raise HarnessMissing(key)
        return f

    def value(self, task, o, name='v'):
        if name == 'v':
            if 'arg' in o:
                return self.args[o['arg']]
            if 'pick' in o:
                v = task.data['raw'].get(o['pick'])
                if o.get('watch'):
                    task.data['inputs'].append(v)
                return v
        elif name == 'parameters' and 'parg' in o:
            return self.args[o['parg']]
        v = o.get(name)
        v = dec(v, self.world, self)
        task.data['inputs'].append(v)
        return v

    def members(self, task, o):
        out = {}
        for name, spec in o['members']:
            out[name] = build(spec, self.world, self)
        return out

    def format_key(self, o):
        fmt = o['fmt']
        if isinstance(fmt, str) and fmt.startswith('class:'):
            return getattr(self.world.scheme, fmt[6:])
        if isinstance(fmt, str) and fmt.startswith('reg:'):
            if fmt[4:] not in self.registered:
                raise HarnessMissing(fmt)
            return self.registered[fmt[4:]]
        return fmt

    def interpolator(self, o):
        name = o.get('interp')
        return getattr(self.world.app, name) if name else None

    def walk(self, f, depth=0, seen=None):
        seen = set() if seen is None else seen
        if id(f) in seen or depth > 8:
            return []
        seen.add(id(f))
        out = [f]
        for child in children(f):
            out.extend(self.walk(child, depth + 1, seen))
        return out

    # -- callbacks
    def poisoned(self, value):
        t = type(value)
        return t is str and value == POISON or (t is list or t is tuple) and any(type(i) is str and i == POISON_IN
            for i in value) or t is dict and POISON_IN in value

    def on_callback(self, name, value=None):
        run = sched.CURRENT[0]
        if run is None or run.cur is None:
            return
        t = run.cur
        if t.nopreempt:
            return
        key = (t.tid, t.opidx)
        if t.data is not None and t.data.get('nesting'):
            return
        n = self.cbcount[key] = self.cbcount.get(key, 0) + 1
        if t.data is not None:
            t.data['callbacks'] = n
            t.data.setdefault('cbnames', []).append(name)
        if value is not None and self.poisoned(value):
            self.fired['callback:poison'] = self.fired.get('callback:poison', 0) + 1
            self.fault_log.setdefault(key, []).append([n, name, 'poison'])
            raise CallbackFault('callback failed')
        action = self.cbfaults.get(key + (n,))
        if action is None:
            return
        if isinstance(action, str):
            self.fault_log.setdefault(key, []).append([n, name, action])
            self.fired['callback:' + action] = self.fired.get('callback:' + action, 0) + 1
            t.data['faulted'] = True
            if action.startswith('@'):
                raise getattr(self.world.scheme, action[1:])('callback failed')
            raise EXCEPTIONS[action]('callback failed')
        # the callback uses the library itself
        self.fired['callback:reenter'] = self.fired.get('callback:reenter', 0) + 1
        if run.solo_skip_nested:
            return
        t.data['nesting'] = True
        try:
            with run.atomic():
                call = OPS[action['op']](self, t, action)
            try:
                result = ('ok', None, call())
            except Exception as e:
                result = ('err', None, e)
            with run.atomic():
                self.nested.append((t.tid, t.opidx, n, result[0] + ':' + canon(result[2])))
        finally:
            t.data['nesting'] = False


class HarnessMissing(Exception):
    """An operand an earlier operation should have produced is not there."""


sched.Run.solo_skip_nested = False


def step(f, key):
    if key == '[]':
        return f.item
    if key == '{}':
        return f.value
    if isinstance(key, int):
        return (f.values if hasattr(type(f), 'values') or f.type == 'tuple' else f.fields)[key]
    if isinstance(key, list):
        return f.structure[key[0]][key[1]]
    return f.structure[key]


def children(f):
    kind = getattr(f, 'type', None)
    if kind == 'structure':
        if f.polymorphic_on:
            for members in f.structure.values():
                for m in members.values():
                    yield m
        else:
            for m in f.structure.values():
                yield m
    elif kind == 'sequence':
        yield f.item
    elif kind == 'map':
        yield f.value
        if f.key:
            yield f.key
    elif kind == 'tuple':
        for m in f.values:
            yield m
    elif kind == 'union':
        for m in f.fields:
            yield m


def new_data():
    return {'raw': {}, 'slots': {}, 'inputs': [], 'outcomes': {}, 'steps': {}, 'callbacks': 0, 'begun': {}, 'ended': {}}


def perform(ctx, run, task, idx, o, limit=None, interrupts=None, moves=None):
    """Performs operation ``o`` of ``task``; returns its outcome."""
    task.opidx = idx
    task.data['inputs'] = inputs = []
    task.data['faulted'] = False
    task.data['callbacks'] = 0
    ctx.cbcount.pop((task.tid, idx), None)
    task.nopreempt += 1
    try:
        try:
            call = OPS[o['op']](ctx, task, o)
        except HarnessMissing:
            return ('missing',)
        before = [snapshot(v) for v in inputs]
        shared = [(k, snapshot(ctx.args[k])) for k in shared_args(o)] if o.get('watch') else []
    finally:
        task.nopreempt -= 1
    task.opstep = 0
    task.oplimit = limit
    ctx.seq += 1
    task.data['begun'][idx] = ctx.seq
    task.interrupts = dict(interrupts) if interrupts else {}
    task.moves = dict(moves) if moves else {}
    exc = result = None
    kind = 'ok'
    clock = ctx.clock
    if clock is not None and o.get('watch_clock'):
        start = len(clock.shown)
    if o.get('atomic'):
        task.nopreempt += 1
    try:
        task.armed = True
        try:
            result = call()
        finally:
            task.armed = False
            if o.get('atomic'):
                task.nopreempt -= 1
    except sched.SimAbort:
        raise
    except sched.SimStuck:
        kind = 'stuck'
    except sched.SimDeadlock:
        kind = 'stuck'
    except BaseException as e:
        exc = e
        kind = 'exc'
    task.interrupts = {}
    task.moves = {}
    task.oplimit = None
    task.data['steps'][idx] = task.opstep
    ctx.seq += 1
    task.data['ended'][idx] = ctx.seq
    task.nopreempt += 1
    try:
        if kind == 'stuck':
            outcome = ('stuck',)
        elif exc is not None:
            exc.__traceback__ = None
            task.data['raw'][idx] = exc
            if type(exc).__name__ == 'Reached':
                outcome = ('reached', exc.args[0])
            elif isinstance(exc, (KeyboardInterrupt, SystemExit, GeneratorExit)) or not isinstance(exc, Exception):
                outcome = ('base', type(exc).__name__)
            elif isinstance(exc, (MemoryError, RecursionError)):
                outcome = ('base', type(exc).__name__)
            elif o.get('late'):
                # read by a later operation; reading it now would hide a late change
                outcome = ('exc', 'late:' + type(exc).__name__)
            else:
                outcome = ('exc', canon(exc))
        else:
            task.data['raw'][idx] = result
            if o.get('late'):
                outcome = ('ok', 'late')
            else:
                outcome = ('ok', canon(result))
        after = [snapshot(v) for v in inputs]
        if before != after and o['op'] not in ('spoil', 'change_arg', 'annotate'):
            task.data.setdefault('mutated', {})[idx] = [(b, a) for b, a in zip(before, after) if a != b]
        for k, text in shared:
            if snapshot(ctx.args[k]) != text:
                task.data.setdefault('mutated', {})[idx] = [(text, snapshot(ctx.args[k]))]
        if clock is not None and o.get('watch_clock'):
            task.data.setdefault('shown', {})[idx] = (start, len(clock.shown))
    finally:
        task.nopreempt -= 1
    return outcome


Ctx.clock = None
Ctx.seq = 0         # orders the beginnings and ends of operations


def shared_args(o):
    return [o[n] for n in ('arg', 'parg') if n in o]


class Env(object):
    """The process environment of a run: streams, clock, zone, storage, set order."""

    def __init__(self, case, solo=False):
        env = case.get('env') or {}
        self.fs = self.clock = None
        self.streams = (sys.stdout, sys.stderr)
        if env.get('fs') is not None:
            spec = env['fs']
            self.fs = fsim.FS([] if solo else spec.get('faults', ()), spec.get('bufsize', 8192),
                spec.get('readsize', 0), spec.get('writesize', 0))
            for name, data in spec.get('files', ()):
                self.fs.put(name, bytes.fromhex(data))
        self.failing = bool(env.get('stdout_fails')) and not solo
        self.env = env

    def __enter__(self):
        env = self.env
        self.out = Stream(self.failing)
        sys.stdout = self.out
        if env.get('tz'):
            simtime.set_zone(env['tz'])
        if env.get('clock') is not None:
            self.clock = simtime.Clock(env['clock'][0], env['clock'][1])
            self.clock.watch = True
            self.clock.install()
        if self.fs is not None:
            self.fs.install()
        return self

    def __exit__(self, *args):
        sys.stdout, sys.stderr = self.streams
        if self.fs is not None:
            self.fs.uninstall()
        if self.clock is not None:
            simtime.Clock.uninstall()
        if self.env.get('tz'):
            simtime.set_zone('UTC0')
        hooks.CTX[0] = None


class Result(object):
    pass


def op_deps(o):
    return o.get('deps') or []


def needed(tasks_ops, idx):
    """Indexes of the operations an operation depends on, in order, ending with it."""
    want, todo = set(), [idx]
    while todo:
        i = todo.pop()
        if i in want:
            continue
        want.add(i)
        todo.extend(op_deps(tasks_ops[i]))
    return sorted(want)


def run_alone(case, ops, tid, indexes, keepfaults=True, nested=True, prepare=None):
    """Runs the operations ``indexes`` of one caller in a pristine world, alone."""
    env = Env(case, solo=True)
    try:
        with env:
            world = instrument.World()
            if prepare is not None:
                prepare(world)
            ctx = Ctx(dict(case, cbfaults=case.get('cbfaults', ()) if keepfaults else ()), world, env.fs)
            ctx.clock = env.clock
            hooks.CTX[0] = ctx
            run = sched.SoloRun()
            run.tasks = []
            task = sched.Task(tid)
            task.data = new_data()
            run.tasks.append(task)
            run.solo_skip_nested = not nested
            ctx.run = run
            outcome = [None]

            def body(t):
                for i in indexes:
                    outcome[0] = perform(ctx, run, t, i, ops[i], limit=3000000)
            run.execute([body])
            result = Result()
            result.outcome = outcome[0]
            result.steps = task.data['steps'].get(indexes[-1], 0)
            result.callbacks = task.data['callbacks']
            result.cbnames = task.data.get('cbnames', [])
            result.nested = ctx.nested
            result.mutated = task.data.get('mutated', {})
            result.stdout = ''.join(env.out.text)
            result.data = task.data
            result.ctx = ctx
            return result
    finally:
        if env.fs is not None:
            env.fs.destroy()


def run_together(case, limits=None, horizon=1000, log=False, before=None, after=None):
    """The simulated run of a case."""
    env = Env(case)
    res = Result()
    res.after, res.leaks = {}, []
    try:
        with env:
            world = instrument.World()
            inject(world, case)
            ctx = Ctx(case, world, env.fs)
            ctx.clock = env.clock
            hooks.CTX[0] = ctx
            tasks = case['tasks']
            plan = sched.make_plan(case['plan'], len(tasks), horizon)
            run = sched.Run(len(tasks), plan)
            if log:
                run.log = []
            ctx.run = run
            if case.get('strike'):
                run.strike = sched.Strike(*case['strike'])
            interrupts, moves = {}, {}
            for tid, idx, stepno, name in case.get('interrupts', ()):
                interrupts.setdefault((tid, idx), {})[stepno] = name
            for tid, idx, stepno, kind, amount in case.get('moves', ()):
                moves.setdefault((tid, idx), {})[stepno] = make_move(ctx, run, kind, amount)
            outcomes = [[None] * len(ops) for ops in tasks]
            for t in run.tasks:
                t.data = new_data()
            if before is not None:
                before(ctx)

            def body_of(ops):
                def body(t):
                    for i, o in enumerate(ops):
                        limit = limits.get((t.tid, i)) if limits else None
                        outcomes[t.tid][i] = perform(ctx, run, t, i, o, limit,
                            interrupts.get((t.tid, i)), moves.get((t.tid, i)))
                        if env.fs is not None:
                            if env.fs.dead:
                                run.over = True
                                break
                            open_, now = env.fs.after(t.tid, i, o.get('path'))
                            res.after[(t.tid, i)] = now
                            if open_:
                                res.leaks.append([t.tid, i, open_])
                return body
            run.execute([body_of(ops) for ops in tasks])
            res.crashed = env.fs is not None and env.fs.dead
            res.outcomes = outcomes
            res.run = run
            res.ctx = ctx
            res.data = [t.data for t in run.tasks]
            res.nested = sorted(ctx.nested)
            res.stdout = list(zip(env.out.by, env.out.text))
            res.fired = dict(run.fired)
            for k, n in ctx.fired.items():
                res.fired[k] = res.fired.get(k, 0) + n
            res.fired.update(world_fired(world))
            res.hits = world.hits
            if env.failing:
                res.fired['stdout-failing'] = 1
            if env.fs is not None:
                for k, n in env.fs.fired.items():
                    res.fired['file:' + k] = n
            res.simtime = env.clock.covered if env.clock is not None else 0.0
            res.clock = env.clock
            res.fs = env.fs
            # what is left behind: the final operations run after everyone is done
            res.final = []
            if not res.crashed:
                solo = sched.SoloRun()
                task = sched.Task(len(tasks))
                task.data = new_data()
                solo.tasks = [task]

                def final(t):
                    for i, o in enumerate(case.get('final', ())):
                        res.final.append(perform(ctx, solo, t, i, o, limit=3000000))
                if case.get('final'):
                    heal(world)
                    solo.execute([final])
                res.final_data = task.data
            if after is not None:
                after(ctx, res)
            if env.fs is not None:
                res.files = dict((n, env.fs.content(n)) for n in env.fs.listing())
            return res
    finally:
        if env.fs is not None:
            env.fs.destroy()


def make_move(ctx, run, kind, amount):
    def jump():
        run.count('clock:jump' if kind == 'jump' else 'clock:' + kind)
        if kind == 'jump':
            ctx.clock.jump(amount)
        elif kind == 'set':
            ctx.clock.set(amount)
    return jump


# ---------------------------------------------------------------- injections into a world
def inject(world, case):
    world.fired = {}
    world.hits = {}
    faults = case.get('importfaults')
    if faults:
        remaining = dict((name, list(plan)) for name, plan in faults)

        def hook(name):
            plan = remaining.get(name)
            kind = plan.pop(0) if plan else 'ok'
            run = sched.CURRENT[0]
            if run is not None and run.cur is not None:
                world.hits.setdefault((run.cur.tid, run.cur.opidx), []).append((name, kind))
            if kind != 'ok':
                world.fired['import:' + kind] = world.fired.get('import:' + kind, 0) + 1
                if kind == 'ImportError':
                    raise ImportError('cannot load %s: injected' % name)
                if kind == 'NotFound':
                    raise ModuleNotFoundError('No module named %r' % name, name=name)
                if kind == 'OSError':
                    raise OSError(5, 'injected')
                if kind == 'SyntaxError':
                    raise SyntaxError('injected')
                if kind == 'MemoryError':
                    raise MemoryError('injected')
        world.import_hook = hook


def heal(world):
    world.import_hook = None


def world_fired(world):
    return world.fired


# ---------------------------------------------------------------- whole cases
class Baseline(object):
    pass


def baselines(case, prepare=None):
    """Outcome of every operation when run alone; also step counts."""
    b = Baseline()
    seen = {}
    b.ops = {}
    b.steps = {}
    b.callbacks = {}
    b.nested = []
    b.mutated = {}
    for tid, ops in enumerate(case['tasks']):
        for i, o in enumerate(ops):
            if o.get('nobase'):
                b.ops[(tid, i)] = None
                b.steps[(tid, i)] = 200
                continue
            key = None
            if not op_deps(o) and not any(f[0] == tid and f[1] == i for f in case.get('cbfaults', ())):
                key = json.dumps(o, sort_keys=True)
            if key is not None and key in seen:
                r = seen[key]
            else:
                r = run_alone(case, ops, tid, needed(ops, i), prepare=prepare)
                if key is not None:
                    seen[key] = r
            b.ops[(tid, i)] = r.outcome
            b.steps[(tid, i)] = r.steps
            b.callbacks[(tid, i)] = r.callbacks
            b.nested.extend(n for n in r.nested if n[1] == i)
            for j in r.mutated:
                b.mutated[(tid, i)] = r.mutated[j]
    b.final = []
    final = case.get('final', ())
    for i, o in enumerate(final):
        r = run_alone(case, final, len(case['tasks']), needed(final, i), prepare=prepare)
        b.final.append(r.outcome)
    b.nested.sort()
    return b


def limits_of(b):
    return dict((k, n * 30 + 20000) for k, n in b.steps.items())


def horizon_of(b):
    return max(10, sum(b.steps.values()))
