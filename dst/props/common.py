"""What the checks of all properties share."""
import json
import random

from dst import case as casemod
from dst import gen, sched
from dst.gen import chance, choice
from dst.vals import enc


class Violation(object):
    """One observed violation; ``key`` identifies its class for minimisation."""

    def __init__(self, key, detail):
        self.key = key
        self.detail = detail


def short(x, n=1500):
    x = str(x)
    return x if len(x) <= n else x[:n] + '... (%d characters)' % len(x)


def difference(a, b, width=160):
    """Where two texts part, for reports."""
    a, b = str(a), str(b)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    lo = max(0, i - 60)
    return {'at': i, 'expected': a[lo:i + width], 'observed': b[lo:i + width]}


class Evaluation(object):
    def __init__(self, case):
        self.case = case
        self.violations = []
        self.fired = {}
        self.runs = 0
        self.solo_runs = 0
        self.steps = 0
        self.switches = 0
        self.inter = 0
        self.simtime = 0.0
        self.states = []        # hashable things reached, for the coverage measure
        self.trace = None
        self.counts = {}        # what else this check counts
        self.nontrivial = False
        self.hot = set()        # where objects were changed that several operations change

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def add(self, key, **detail):
        self.violations.append(Violation(key, detail))

    def note(self, res):
        self.runs += 1
        self.steps += res.run.step
        self.switches += res.run.nswitch
        self.inter = (self.inter * 31 + res.run.inter) & 0xffffffffffff
        self.simtime += res.simtime
        for k, n in res.fired.items():
            self.fired[k] = self.fired.get(k, 0) + n
        self.states.append(res.run.inter)
        self.trace = res.run.switches
        self.hot |= res.run.hot


class Check(object):
    """Base of the checks: a generator of cases and a judge."""

    id = None
    level = 'exploration'
    quick = 2400            # cases of a quick run
    thorough = 120000
    quick_budget = 240      # seconds after which workers stop early
    thorough_budget = 3000
    rule = ('cases are generated from the seed: schemas, values, programs of operations per caller, plan and '
        'faults; non-trivial when at least one context switch or fault happened during operations; distinct '
        'by schemas, programs, schedule and faults that fired')
    time_note = 'no simulated clock in these runs; their time is the scheduling points passed'
    real = ['scheme/* (all modules, instrumented copies of the files in /repo/scheme)', 'PyYAML', 'jinja2',
        'interpreter and its standard library']
    stub = ['thread scheduling (deterministic scheduler)', 'application callbacks (dst/app)']
    assumptions = ['threads interleave at the inserted scheduling points (statements, attribute and subscript '
        'loads, calls) of scheme itself, not inside third-party modules or the standard library',
        'the outcome of an operation run alone in a pristine world of the same tree is its reference']

    repeats = False         # whether operations can be repeated in any order by any caller
    repeated = ()           # which operations beside the plain ones
    callers = [2, 2, 3, 4]  # how many callers repeat them

    def signature(self, violation):
        """The signature of a listed finding this violation is an instance of."""
        return None

    def generate(self, rng):
        raise NotImplementedError

    def evaluate(self, case, log=False):
        ev = Evaluation(case)
        b = casemod.baselines(case)
        ev.solo_runs += len(b.ops) + len(b.final)
        case = self.place(case, b, ev)
        ev.case = case
        res = casemod.run_together(case, casemod.limits_of(b), casemod.horizon_of(b), log=log)
        if case.get('strike'):
            # where the interrupts fell, for the minimiser and the replay file
            ev.case = case = dict(case, interrupts=list(case.get('interrupts', ())) + res.run.struck)
            del case['strike']
        ev.note(res)
        ev.res, ev.b = res, b
        self.judge(case, b, res, ev)
        return ev

    def place(self, case, b, ev):
        """Turns relative fault positions into positions, using the step counts."""
        if not case.get('at'):
            return case
        case = dict(case)
        ints = list(case.get('interrupts', ()))
        for tid, i, frac, name in case['at']:
            n = b.steps.get((tid, i), 0)
            if n:
                ints.append([tid, i, 1 + int(frac * n), name])
        case['interrupts'] = ints
        del case['at']
        return case

    def derive(self, case, hot, rng):
        """Another case like ``case``, in which several operations changed the same object at the places ``hot``.

        The search looks closer there: more uses, alternating around these changes.  What it finds is judged
        like everything else.
        """
        case = dict(case)
        plain = [dict((k, x) for k, x in o.items() if k != 'cut') for ops in case.get('tasks', ()) for o in ops
            if (o['op'] in PLAIN or o['op'] in self.repeated) and not o.get('deps')]
        if self.repeats and plain and chance(rng, 0.75):
            kinds = [x[3] for x in case.get('at', ())]
            case['tasks'] = [[vary(rng, choice(rng, plain), plain) for i in range(choice(rng, [4, 8, 14]))]
                for t in range(choice(rng, self.callers))]
            for name in ('cbfaults', 'interrupts', 'at', 'moves'):
                case.pop(name, None)
            if kinds and chance(rng, 0.6):
                case['strike'] = [rng.getrandbits(30), sorted(hot), choice(rng, [0.05, 0.2, 0.5]), kinds]
            elif kinds:
                case['at'] = [[t, i, rng.random(), choice(rng, kinds)] for t, ops in enumerate(case['tasks'])
                    for i, o in enumerate(ops) if chance(rng, 0.15)]
            if case.get('final'):
                case['final'] = list(case['final']) + [dict(choice(rng, plain)) for i in range(3)]
        case['plan'] = ['store', rng.getrandbits(30), sorted(hot), choice(rng, [0.3, 0.6, 1.0]), choice(rng, [0, 0.01, 0.05])]
        return json.loads(json.dumps(case))

    def judge(self, case, b, res, ev):
        self.compare(case, b, res, ev)

    # -- shared oracles
    def compare(self, case, b, res, ev, skip=(), final=True):
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                if (tid, i) in skip or b.ops[(tid, i)] is None:
                    continue
                self.same(ev, 'op', b.ops[(tid, i)], res.outcomes[tid][i], tid, i, o)
        if final:
            for i, o in enumerate(case.get('final', ())):
                if ('final', i) in skip:
                    continue
                self.same(ev, 'final', b.final[i], res.final[i], 'final', i, o)

    def same(self, ev, key, expected, got, tid, i, o):
        if got is None:
            if ev.res.crashed:
                return
            got = ('none',)
        if tuple(expected) != tuple(got) or got[0] == 'stuck':
            kind = 'stuck' if got[0] == 'stuck' else 'differs'
            ev.add(key + ':' + kind, task=tid, op=i, what=o['op'], expected=short(expected),
                observed=short(got), first_difference=difference(expected, got))


PLAIN = ('process', 'serialize', 'unserialize', 'interpolate', 'extract', 'instantiate', 'describe')


def vary(rng, o, others):
    """The operation ``o``, often with a value like one that another operation uses."""
    o = dict(o)
    if 'v' not in o or o['op'] not in PLAIN or 'wanted' in o:
        return o
    r = rng.random()
    if r < 0.35:
        o['v'] = gen.lookalike(rng, o['v'])
    elif r < 0.65:
        same = [p['v'] for p in others if 'v' in p and p.get('s') == o.get('s')] or [o['v']]
        o['v'] = crossed(rng, o['v'], choice(rng, same))
    return o


def crossed(rng, a, b):
    if isinstance(a, list) and isinstance(b, list):
        both = a + b
        rng.shuffle(both)
        return both[:int(rng.random() * (len(both) + 1))]
    if isinstance(a, dict) and isinstance(b, dict) and '%d' in a and '%d' in b:
        pairs = dict((json.dumps(k), [k, v]) for k, v in a['%d'])
        for k, v in b['%d']:
            key = json.dumps(k)
            if key in pairs and chance(rng, 0.5):
                pairs[key] = [k, crossed(rng, pairs[key][1], v)]
            elif chance(rng, 0.5):
                pairs[key] = [k, v]
        return {'%d': list(pairs.values())}
    return b


# ---------------------------------------------------------------- generator helpers
def plan(rng):
    return sched.gen_plan(rng)


def forms(rng):
    return choice(rng, ['n', 's', 's'])


def convert_op(rng, si, spec, bad=0.2, formats=False, pool=None):
    """A process/serialize/unserialize call on schema ``si``."""
    r = rng.random()
    if r < 0.4:
        form = forms(rng)
        o = {'op': 'process', 's': si, 'phase': 'inbound', 'ser': form == 's',
            'v': enc(gen.value(rng, spec, form, bad if chance(rng, 0.5) else 0))}
        if spec[0] == 'structure' and chance(rng, 0.1):
            o['partial'] = True
    elif r < 0.55:
        o = {'op': 'process', 's': si, 'phase': 'outbound', 'ser': chance(rng, 0.7),
            'v': enc(gen.value(rng, spec, 'n', bad if chance(rng, 0.5) else 0))}
    elif r < 0.78:
        o = {'op': 'serialize', 's': si, 'v': enc(gen.value(rng, spec, 'n', bad if chance(rng, 0.4) else 0))}
        if formats and chance(rng, 0.4):
            o['fmt'] = 'json'
    else:
        o = {'op': 'unserialize', 's': si, 'v': enc(gen.value(rng, spec, 's', bad if chance(rng, 0.4) else 0))}
    if pool is not None:
        if pool and chance(rng, 0.3):
            o['v'] = choice(rng, pool)
        pool.append(o['v'])
    return o


def drill(rng, plan_of, callers, lengths):
    """Many uses of one small schema with values that are easily mistaken for one another."""
    opt = gen.Options(depth=choice(rng, [0, 0, 1, 1, 2]), callbacks=0, defaults=0.2, extras=0.1, members=2, bounds=0.3,
        constants=0.1)
    recursive = chance(rng, 0.25)
    if recursive:
        # of schemas which contain themselves and one another
        specs, places = gen.recursive(rng, opt)
        subs = []
    else:
        subs, specs = gen.schemas(rng, opt, 1)
    pools = [gen.cluster(rng, spec, choice(rng, [4, 6, 9])) for spec in specs]
    tasks = []
    for t in range(callers):
        ops = []
        for i in range(choice(rng, lengths)):
            si = int(rng.random() * len(specs))
            v, r = choice(rng, pools[si]), rng.random()
            if r > 0.85:
                o = {'op': 'interpolate', 's': si, 'v': v if chance(rng, 0.4) else enc(gen.template(rng, specs[si], PARAMS)),
                    'parameters': enc(gen.parameters(rng, PARAMS, 's'))}
            elif r < 0.5:
                o = {'op': 'process', 's': si, 'v': v, 'phase': choice(rng, ['inbound', 'outbound']), 'ser': chance(rng, 0.7)}
            elif r < 0.8:
                o = {'op': choice(rng, ['serialize', 'serialize', 'unserialize']), 's': si, 'v': v}
            else:
                o = {'op': choice(rng, ['extract', 'instantiate']), 's': si, 'v': v}
            ops.append(o)
        tasks.append(ops)
    final = [{'op': 'process', 's': si, 'v': v, 'phase': choice(rng, ['inbound', 'outbound']), 'ser': True}
        for si, pool in enumerate(pools) for v in pool[:4]]
    case = {'subs': subs, 'schemas': specs, 'args': [], 'tasks': tasks, 'plan': plan_of(rng), 'final': final}
    if recursive:
        case.update(places=places, defined=list(enumerate(places)))
    return case


SCREENS = [{'required': True}, {'name': 'a'}, {'required': False}, {'nonnull': True}, {'flag': True}, {'title': 'Title'}]
PARAMS = ['p', 'q']


def use_op(rng, si, spec, bad=0.2, kinds=None, pool=None, allow=None):
    """Any read-only use of schema ``si``."""
    kind = choice(rng, allow or ['convert'] * 8 + ['interpolate', 'extract', 'instantiate', 'describe', 'clone', 'repr',
        'filter', 'screen', 'get', 'defaults', 'transform', 'visit', 'redescribe'])
    if kind == 'convert':
        o = convert_op(rng, si, spec, bad)
        if pool is not None:
            r = rng.random()
            if pool and r < 0.35:
                o['v'] = gen.lookalike(rng, choice(rng, pool))
            elif pool and r < 0.5:
                o['v'] = choice(rng, pool)
            pool.append(o['v'])
        return o
    if kind == 'interpolate':
        o = {'op': 'interpolate', 's': si, 'v': enc(gen.template(rng, spec, PARAMS)),
            'parameters': enc(gen.parameters(rng, PARAMS, choice(rng, ['s', 't'])))}
        if chance(rng, 0.5):
            o['interp'] = choice(rng, ['INTERP_A', 'INTERP_B'])
        return o
    if kind == 'extract':
        v = gen.value(rng, spec, 'n', bad if chance(rng, 0.4) else 0)
        o = {'op': 'extract', 's': si, 'v': enc(gen.carrier(rng, v))}
        if chance(rng, 0.2):
            o['strict'] = False
        return o
    if kind == 'instantiate':
        return {'op': 'instantiate', 's': si, 'v': enc(gen.value(rng, spec, 'n', bad if chance(rng, 0.2) else 0))}
    o = {'op': kind, 's': si}
    if kind == 'describe':
        if chance(rng, 0.3):
            o['verbose'] = True
        if chance(rng, 0.2):
            o['parameters'] = enc({'extra': [1, {'k': 'v'}]})
    elif kind == 'clone':
        if chance(rng, 0.5):
            o['params'] = enc(choice(rng, [{'required': True}, {'name': 'renamed'}, {'nonnull': True, 'notes': 'x'},
                {'default': None}, {'flag': True}]))
    elif kind in ('filter', 'screen'):
        o['params'] = enc(choice(rng, SCREENS))
        if kind == 'filter':
            o['all'] = chance(rng, 0.4)
    elif kind == 'get':
        o['key'] = choice(rng, ['a', 'b', 'type', 'nothing', 'common'])
    elif kind == 'defaults':
        if spec[0] != 'structure':
            o['op'] = 'describe'
        else:
            o['sparse'] = chance(rng, 0.5)
            if 'variants' in spec[1]:
                o['identity'] = choice(rng, [i for i, mm in spec[1]['variants']] + ['nope'])
    elif kind == 'transform':
        o['how'] = choice(rng, ['none', 'false', 'integers', 'texts', 'leaves'])
    return o
