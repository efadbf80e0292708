import json
import re

from dst import case as casemod
from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import enc

FIELD_LINE = re.compile(r'\n *Field: [^\n]*')
QUESTIONS = ('describe', 'redescribe', 'filter', 'screen', 'transform', 'repr', 'visit')


def undefs(spec):
    return set(s[1] for x, s in gen.walk(spec) if s[0] == 'undef')


class Unroller(object):
    """Specifications with the definitions in place; recursion is cut after some levels."""

    def __init__(self, case, probed=(), budget=500):
        self.case = case
        self.probed = probed
        self.budget = budget
        self.cut = False

    def spec(self, spec, level=0):
        self.budget -= 1
        kind, p = spec
        if kind == 'undef':
            if p in self.probed:
                return ['probe', 'undefined']
            if level > 9 or self.budget < 0:
                self.cut = True
                return ['probe', 'cut']
            place = self.case['places'][p]
            if place[0] == 'schema':
                place = self.case['schemas'][place[1]]
            return self.spec(place, level + 1)
        out = {}
        for name, v in p.items():
            if name in ('item', 'value', 'key') and isinstance(v, list):
                v = self.spec(v, level)
            elif name in ('values', 'fields'):
                v = [self.spec(x, level) for x in v]
            elif name in ('structure', 'common'):
                v = [[n, self.spec(x, level)] for n, x in v]
            elif name == 'variants':
                v = [[i, [[n, self.spec(x, level)] for n, x in mm]] for i, mm in v]
            out[name] = v
        return [kind, out]


def replaced(spec, fn):
    """``spec`` with every part replaced by what ``fn`` makes of it."""
    spec = fn(spec)
    if spec[0] in ('undef', 'ref', 'cls'):
        return spec
    p = {}
    for name, v in spec[1].items():
        if name in ('item', 'value', 'key') and isinstance(v, list):
            v = replaced(v, fn)
        elif name in ('values', 'fields'):
            v = [replaced(x, fn) for x in v]
        elif name in ('structure', 'common'):
            v = [[n, replaced(x, fn)] for n, x in v]
        elif name == 'variants':
            v = [[i, [[n, replaced(x, fn)] for n, x in mm]] for i, mm in v]
        p[name] = v
    return [spec[0], p]


def productive(spec):
    """A definition whose unions do not lead straight back to a placeholder."""
    if spec[0] == 'undef':
        return ['integer', {}]
    if spec[0] == 'union':
        return ['union', dict(spec[1], fields=[productive(s) for s in spec[1]['fields']])]
    return spec


def foreign(spec, own):
    """A definition in which no structure has another placeholder as a member.

    It may be built once that placeholder is defined, and a structure then gives the shared field its name.
    """
    def members(pairs):
        return [[n, ['sequence', {'item': m}] if m[0] == 'undef' and m[1] != own else m] for n, m in pairs]

    def fn(s):
        if s[0] != 'structure' or not any(m[0] == 'undef' and m[1] != own for x, m in list(gen.walk(s))[1:]):
            return s
        p = dict(s[1])
        for name in ('structure', 'common'):
            if name in p:
                p[name] = members(p[name])
        if 'variants' in p:
            p['variants'] = [[i, members(mm)] for i, mm in p['variants']]
        return ['structure', p]
    return replaced(spec, fn)


class C15(common.Check):
    """Placeholders."""

    id = 'C15'
    quick = 1000

    def generate(self, rng):
        if chance(rng, 0.2):
            return self.rush(rng)
        nplaces = choice(rng, [1, 1, 1, 2, 2, 3])
        opt = gen.Options(depth=choice(rng, [1, 2, 2, 3]), undefined=choice(rng, [0.3, 0.5]), places=nplaces,
            callbacks=choice(rng, [0, 0, 0.15]), extras=0.1, members=3, defaults=0.15, poly=0.35,
            kinds=('preprocessor', 'extractor', 'instantiator'))
        while True:
            del gen.PLACES[:]
            gen.PLACES.extend([['integer', {}]] * nplaces)
            schemas = []
            for i in range(choice(rng, [1, 1, 2, 3])):
                kind = choice(rng, gen.STRUCTURAL + ['structure'])
                schemas.append(gen.field(rng, kind, opt, opt.depth, choice(rng, [None, None, 'root'])))
            places = []
            small = opt.but(depth=2, undefined=choice(rng, [0, 0, 0.3, 0.4]))
            for i in range(nplaces):
                r = rng.random()
                owners = [j for j, s in enumerate(schemas) if s[0] != 'union']
                if r < 0.25 and owners:
                    places.append(['schema', choice(rng, owners)])
                elif r < 0.4:
                    places.append(gen.field(rng, choice(rng, opt.leaves), small))
                else:
                    kind = choice(rng, gen.STRUCTURAL + ['structure'])
                    places.append(foreign(productive(gen.field(rng, kind, small, choice(rng, [1, 2]))), i))
            if not any(undefs(s) for s in schemas):
                continue
            for s in places:
                if s[0] == 'schema':
                    # a member takes the name of its place
                    schemas[s[1]][1].pop('name', None)
            gen.PLACES[:] = [schemas[s[1]] if s[0] == 'schema' else s for s in places]
            if all(self.ends(s, ()) for s in gen.PLACES):
                break
        case = {'subs': [], 'places': places, 'schemas': schemas, 'plan': common.plan(rng)}
        # the schemas which the placeholder makes recursive
        loops = [j for j, s in enumerate(schemas) if self.loops(case, s)]
        apart = 'schema' not in [s[0] for s in places] and not any(
            isinstance(n, str) for s in schemas + places for n in self.owners(s))
        tasks = []
        for t in range(choice(rng, [1, 2, 2, 3])):
            ops = []
            for i in range(choice(rng, [1, 2, 4, 6])):
                ops.append(self.use(rng, case, loops))
            tasks.append(ops)
        left = []
        for i in range(nplaces):
            if chance(rng, 0.85):
                ops = choice(rng, tasks)
                ops.insert(int(rng.random() * (len(ops) + 1)), self.definition(case, i))
            else:
                left.append(i)
        # copies and further owners made on the way
        for t, ops in enumerate(tasks):
            if chance(rng, 0.35):
                j = int(rng.random() * len(schemas))
                how = 'clone' if chance(rng, 0.6) or not apart else 'build'
                if how == 'clone' and j in loops:
                    continue
                at = int(rng.random() * len(ops))
                ops.insert(at, dict({'op': 'derive', 's': j, 'how': how, 'slot': 'own', 'of': j},
                    **({'spec': schemas[j]} if how == 'build' else {'atomic': True})))
                for k in range(choice(rng, [1, 2, 3])):
                    o = self.use(rng, case, [], j)
                    o['s'], o['of'] = 'slot:own', j
                    ops.insert(at + 1 + int(rng.random() * (len(ops) - at)), o)
        # owners which lose members before or after those are defined
        altered = []
        for t, ops in enumerate(tasks):
            flat = [j for j, s in enumerate(schemas) if j not in loops and s[0] == 'structure' and 'variants' not in s[1]
                and 'key_order' not in s[1] and 'default' not in s[1] and any(m[0] == 'undef' for n, m in s[1]['structure'])]
            if not flat or not chance(rng, 0.3):
                continue
            j = choice(rng, flat)
            held = [n for n, m in schemas[j][1]['structure'] if m[0] == 'undef']
            names = rng.sample(held, 1 + int(rng.random() * len(held)))
            at = int(rng.random() * (len(ops) + 1))
            change = {'op': 'change', 's': 'slot:less', 'atomic': True}
            p = dict(schemas[j][1])
            if chance(rng, 0.6):
                change.update(how='remove', names=names)
                p['structure'] = [[n, m] for n, m in p['structure'] if n not in names]
            else:
                change.update(how='merge', prefer=True, members=[[n, ['boolean', {'name': n}]] for n in names])
                p['structure'] = [[n, ['boolean', {'name': n}] if n in names else m] for n, m in p['structure']]
            less = ['structure', p]
            ops.insert(at, {'op': 'derive', 's': j, 'how': 'clone', 'slot': 'less', 'of': j, 'atomic': True})
            ops.insert(at + 1, change)
            for k in range(choice(rng, [0, 1, 2])):
                o = common.use_op(rng, j, less, choice(rng, [0, 0, 0.2]), allow=['convert', 'convert', 'extract', 'instantiate'])
                o.update(s='slot:less', of=j, less=len(altered))
                ops.insert(at + 2 + int(rng.random() * (len(ops) - at - 1)), o)
            altered.append(less)
            for more in tasks:
                for o in more:
                    if o['op'] == 'define':
                        o['atomic'] = True
        case['altered'] = altered
        if any(o['op'] == 'derive' for ops in tasks for o in ops) and not apart:
            # a copy made while the definition arrives would name the definition itself
            for ops in tasks:
                for o in ops:
                    if o['op'] == 'define':
                        o['atomic'] = True
        final = [self.use(rng, case, loops) for i in range(2)] if left else []
        final += [self.definition(case, i) for i in left]
        for j in range(len(schemas)):
            for i in range(3):
                final.append(self.use(rng, case, loops, j))
            if j not in loops and 'schema' not in [s[0] for s in places]:
                final.append({'op': choice(rng, QUESTIONS), 's': j, 'asks': True})
        case.update(tasks=tasks, final=final)
        return case

    def rush(self, rng):
        """Owners of a placeholder are built while it is being defined."""
        opt = gen.Options(depth=1, callbacks=0, extras=0, defaults=0, poly=0)
        places = [gen.field(rng, choice(rng, ['integer', 'text', 'date', 'sequence', 'structure', 'map']), opt, 1)
            for i in range(choice(rng, [1, 2, 4, 6]))]
        schemas = []
        for i in range(choice(rng, [1, 2])):
            held = []
            for j in rng.sample(range(len(places)), choice(rng, [len(places), (len(places) + 1) // 2])):
                held.append(choice(rng, [['sequence', {'item': ['undef', j]}], ['map', {'value': ['undef', j]}], ['undef', j],
                    ['union', {'fields': [['boolean', {}], ['undef', j]]}]]))
            schemas.append(choice(rng, [['tuple', {'values': held}], ['sequence', {'item': ['tuple', {'values': held}]}]]))
        gen.PLACES[:] = places
        case = {'subs': [], 'places': places, 'schemas': schemas, 'altered': [],
            'plan': ['random', rng.getrandbits(30), choice(rng, [0.1, 0.25, 0.5])] if chance(rng, 0.7) else common.plan(rng)}
        tasks = []
        for t in range(choice(rng, [1, 1, 2])):
            ops, built = [], []
            for i in range(choice(rng, [1, 2, 3])):
                j = int(rng.random() * len(schemas))
                ops.append({'op': 'derive', 's': j, 'how': 'build', 'slot': 'own%d' % i, 'of': j, 'spec': schemas[j]})
                built.append((j, 'slot:own%d' % i))
            for j, slot in built:
                o = self.use(rng, case, [], j)
                o['s'], o['of'] = slot, j
                ops.append(o)
            tasks.append(ops)
        tasks.insert(int(rng.random() * 2), [self.definition(case, i) for i in rng.sample(range(len(places)), len(places))])
        case['tasks'] = tasks
        case['final'] = [self.use(rng, case, []) for i in range(2)]
        return case

    def definition(self, case, i):
        place = case['places'][i]
        return {'op': 'define', 'p': i, 's': place[1]} if place[0] == 'schema' else {'op': 'define', 'p': i, 'spec': place}

    def owners(self, spec):
        """How placeholders are held: by member name in structures."""
        for x, s in gen.walk(spec):
            if s[0] == 'structure':
                for n, m in [m for i, mm in s[1].get('variants', ()) for m in mm] + list(s[1].get('structure', ())) \
                        + list(s[1].get('common', ())):
                    if m[0] == 'undef':
                        yield n

    def loops(self, case, spec, seen=()):
        for i in undefs(spec):
            place = case['places'][i]
            if i in seen or self.loops(case, case['schemas'][place[1]] if place[0] == 'schema' else place, seen + (i,)):
                return True
        return False

    def ends(self, spec, seen):
        """Whether a use of ``spec`` consumes part of the value before it comes back to the same place."""
        if spec[0] == 'undef':
            return spec[1] not in seen and self.ends(gen.PLACES[spec[1]], seen + (spec[1],))
        if spec[0] == 'union':
            return all(self.ends(s, seen) for s in spec[1]['fields'])
        return True

    def use(self, rng, case, loops, j=None):
        j = int(rng.random() * len(case['schemas'])) if j is None else j
        spec = case['schemas'][j]
        o = common.use_op(rng, j, spec, choice(rng, [0, 0, 0.15, 0.4]), allow=['convert'] * 4 + ['extract', 'extract',
            'interpolate', 'interpolate', 'instantiate', 'instantiate'])
        return o

    # -- references
    def refer(self, case, o, probed, b):
        """The outcome of ``o`` with the definitions in place, those in ``probed`` by something that notices."""
        j = o.get('of', o['s'])
        key = json.dumps([o, sorted(probed)], sort_keys=True)
        if key not in b:
            unroller = Unroller(case, probed)
            spec = unroller.spec(case['altered'][o['less']] if 'less' in o else case['schemas'][j])
            alone = {'subs': [], 'schemas': [spec]}
            r = casemod.run_alone(alone, [dict(o, s=0)], 0, [0])
            self.solo += 1
            if r.outcome == ('reached', 'cut'):
                # too deep to write down: the definition made before any use
                r = None
                if not probed and 'less' not in o:
                    alone = dict(case, defined=list(enumerate(case['places'])))
                    r = casemod.run_alone(alone, [dict(o, s=j)], 0, [0])
                    self.solo += 1
            b[key] = r
        return b[key]

    def evaluate(self, case, log=False):
        ev = common.Evaluation(case)
        b, limits, total = {}, {}, 0
        self.solo = 0
        for tid, ops in list(enumerate(case['tasks'])) + [(len(case['tasks']), case['final'])]:
            for i, o in enumerate(ops):
                steps = 300
                if 'v' in o or 'asks' in o:
                    steps = self.refer(case, o, (), b).steps
                limits[(tid, i)] = steps * 30 + 20000
                total += steps
        res = casemod.run_together(case, limits, max(10, total), log=log)
        ev.note(res)
        ev.res = res
        done = len(case['tasks'])
        lives = {}
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                if o['op'] == 'define' and i in res.data[tid]['begun']:
                    lives[o['p']] = (res.data[tid]['begun'][i], res.data[tid]['ended'].get(i, 1 << 60))
                    if res.outcomes[tid][i] != ('ok', "'defined'"):
                        ev.add('define', task=tid, op=i, observed=common.short(res.outcomes[tid][i]))
        for i, o in enumerate(case['final']):
            if o['op'] == 'define':
                lives[o['p']] = (res.final_data['begun'][i], res.final_data['ended'][i])
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                if 'v' in o:
                    self.judge_use(case, b, ev, tid, i, o, res.outcomes[tid][i], res.data[tid], lives)
                elif o['op'] in ('derive', 'change') and res.outcomes[tid][i] and res.outcomes[tid][i][0] == 'exc':
                    ev.add('derive', task=tid, op=i, observed=common.short(res.outcomes[tid][i]))
        for i, o in enumerate(case['final']):
            if 'v' in o or 'asks' in o:
                self.judge_use(case, b, ev, 'final', i, o, res.final[i], res.final_data, lives)
        ev.solo_runs += self.solo
        return ev

    def plain(self, outcome):
        """Without how the field of a report prints, where a field printed in place has to differ."""
        return tuple(FIELD_LINE.sub('', x) for x in outcome)

    def judge_use(self, case, b, ev, tid, i, o, got, data, lives):
        if got is None or got[0] == 'missing':
            return
        begun, ended = data['begun'][i], data['ended'].get(i, 1 << 60)
        never = (1 << 60, 1 << 60)
        held = range(len(case['places']))
        before = frozenset(p for p in held if lives.get(p, never)[0] > ended)
        during = frozenset(p for p in held if p not in before and lives.get(p, never)[1] > begun)
        expected = tuple(self.refer(case, o, (), b).outcome)
        if before or during or isinstance(o['s'], str) or self.loops(case, case['schemas'][o['s']]):
            expected, got = self.plain(expected), self.plain(got)
        undefined = got[0] == 'exc' and got[1].startswith('exc:UndefinedFieldError:')
        allowed = 'in place'
        if before:
            probe = self.refer(case, o, before, b)
            reached = probe is not None and probe.outcome == ('reached', 'undefined')
            unsure = probe is None
            ev.count('uses_before_definition')
            if reached:
                ev.count('uses_of_undefined_members')
                allowed = 'undefined'
            elif unsure or during:
                allowed = 'either'
        elif during:
            ev.count('uses_during_definition')
            allowed = 'either'
        else:
            ev.count('uses_after_definition')
        ok = {'in place': tuple(got) == expected, 'undefined': undefined,
            'either': undefined or tuple(got) == expected}[allowed]
        if not ok:
            ev.add('use:' + allowed.replace(' ', '-'), task=tid, op=i, what=o['op'], before=sorted(before), during=sorted(during),
                allowed=allowed,
                kind=[expected[0], got[0]], **common.difference(expected[-1], got[-1]))
