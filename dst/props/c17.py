import json

from dst import case as casemod
from dst import gen, orders, vals
from dst.gen import chance, choice
from dst.props import common
from dst.vals import Raw, enc

TEXT_FORMATS = ['yaml', 'structuredtext', 'xml', 'csv']
MANY = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'Alpha', 'BETA']


def cased(spec):
    """A copy of an xml or csv schema with members whose names differ only in case."""
    spec = json.loads(json.dumps(spec))
    s = spec[1]['item'] if spec[0] == 'sequence' else spec
    s[1]['structure'] += [[n, x] for n, x in (('A', ['text', {}]), ('N', ['integer', {}])) ]
    return spec


def recased(rng, v):
    """Adds values for the members ``cased`` adds."""
    for row in v if isinstance(v, list) else [v]:
        if isinstance(row, dict) and chance(rng, 0.6):
            row['A'] = 'of A'
            row['N'] = 77
    return v


def tame(spec):
    """Keyed maps convert keys; colliding ones are told apart by nothing but the order, so only plain keys."""
    for path, s in gen.walk(spec):
        if s[0] == 'map' and 'key' in s[1]:
            s[1]['key'] = ['token', {}]
        if s[0] == 'structure' and s[1].get('structure') and len(s[1]['structure']) < 2:
            s[1]['structure'] = s[1]['structure'] + [[n, ['integer', {}]] for n in ('m1', 'm2')
                if n not in [m[0] for m in s[1]['structure']]]
            if 'key_order' in s[1]:
                s[1]['key_order'] = [m[0] for m in s[1]['structure']][::-1]
    return spec


def plain(rng, depth=0, sets=True):
    """Plain data with mappings, ordered mappings and sets."""
    r = rng.random()
    if depth > 3 or r < 0.25 and depth:
        return choice(rng, [1, True, None, 2.5, 'x', 'two words', 'k: v', '', 'null', 0])
    if r < 0.55:
        names = rng.sample(MANY, int(rng.random() * 5))
        if depth < 2 and chance(rng, 0.15):
            names = [3, 1, 2, 10][:len(names)]
        return dict((n, plain(rng, depth + 1, sets)) for n in names)
    if r < 0.7:
        return Raw({'%od': [[n, enc(plain(rng, depth + 1, sets))] for n in rng.sample(MANY, int(rng.random() * 4))]})
    if r < 0.85 and sets:
        return Raw({'%set': rng.sample(choice(rng, [MANY, [1, 2, 3, 10, 20], [True, None, 'x', 2.5, 7]]),
            int(rng.random() * 5))})
    return [plain(rng, depth + 1, sets) for i in range(int(rng.random() * 3))]


def settled(spec, out, path=()):
    """Declared orders by the path of the ordered structure; parts below unions are left out."""
    kind, p = spec
    if kind in ('ref', 'undef', 'cls', 'union', 'schema'):
        return
    if kind == 'structure':
        if 'structure' in p:
            order = p.get('key_order')
            if order:
                out.append((path, order.split(' ') if isinstance(order, str) else order))
            for n, s in p['structure']:
                settled(s, out, path + (n,))
    elif kind == 'sequence':
        settled(p['item'], out, path + ('[]',))
    elif kind == 'map':
        settled(p['value'], out, path + ('{}',))
    elif kind == 'tuple':
        for i, s in enumerate(p['values']):
            settled(s, out, path + (i,))


def reach(v, path):
    if not path:
        yield v
        return
    k = path[0]
    if k == '[]':
        items = v if isinstance(v, (list, tuple)) else ()
    elif k == '{}':
        items = v.values() if isinstance(v, dict) else ()
    elif isinstance(k, int):
        items = [v[k]] if isinstance(v, (list, tuple)) and k < len(v) else ()
    else:
        items = [v[k]] if isinstance(v, dict) and k in v else ()
    for item in items:
        for x in reach(item, path[1:]):
            yield x


class C17(common.Check):
    """Results do not depend on hash or iteration order."""

    id = 'C17'
    quick = 1300
    real = common.Check.real
    stub = common.Check.stub + ['iteration order of sets and hashes of strings inside scheme (seeded)',
        'order in which the mappings handed to scheme were filled (seeded)']
    rule = ('cases are generated from the seed: schemas, values and programs of operations; every caller performs the '
        'same program through its own copy of the schemas, with all mappings filled in an order of its own and sets '
        'enumerating in a seeded order; non-trivial when a context switch happened and an order was changed')

    def generate(self, rng):
        opt = gen.Options(leaves=choice(rng, [gen.LEAVES, gen.JSONABLE, ['enumeration', 'integer', 'text', 'definition']]),
            callbacks=0.05, depth=choice(rng, [1, 2, 3]), poly=0.3, refs=0, members=6, kinds=('preprocessor', 'extractor'))
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 2]), 0)
        specs = [tame(s) for s in specs]
        for s in specs:
            for path, x in gen.walk(s):
                if x[0] == 'structure' and 'structure' in x[1] and 'key_order' not in x[1] and chance(rng, 0.3):
                    order = [m[0] for m in x[1]['structure']]
                    rng.shuffle(order)
                    x[1]['key_order'] = order
        fixed = [cased(gen.XML_SPEC), cased(gen.CSV_SPEC), ['enumeration', {'enumeration': rng.sample(MANY, 3)}],
            ['definition', {'valid_fields': rng.sample(['integer', 'text', 'structure', 'map', 'boolean'], 3)}],
            ['map', {'value': ['integer', {'minimum': 3}], 'required_keys': rng.sample(MANY, choice(rng, [2, 4, 6]))}],
            ['structure', {'structure': [[n, ['integer', {'required': True, 'minimum': 3}]] for n in rng.sample(MANY, 6)]}]]
        n = len(specs)
        specs = specs + fixed
        ops, slots = [], []
        for i in range(choice(rng, [3, 5, 8])):
            si = int(rng.random() * n)
            r = rng.random()
            if r < 0.45:
                o = common.use_op(rng, si, specs[si], choice(rng, [0.1, 0.3, 0.7]), allow=['convert'] * 6 + ['describe',
                    'defaults', 'extract', 'interpolate', 'instantiate', 'redescribe', 'clone', 'filter', 'screen'])
                if specs[si][0] == 'structure' and isinstance(o.get('v'), dict) and list(o['v']) == ['%d'] \
                        and o['op'] in ('process', 'serialize', 'unserialize') and chance(rng, 0.3):
                    # several members the schema does not know
                    extra = [[k, 1] for k in rng.sample(['zz', 'extra', 'more', 'q1', 'q2', 'unknown'], choice(rng, [2, 3, 6]))]
                    o['v'] = {'%d': [m for m in o['v']['%d'] if m[0] not in [x[0] for x in extra]] + extra}
                if o['op'] in ('filter', 'screen') and specs[si][0] == 'structure' and 'key_order' in specs[si][1]:
                    o['op'] = 'describe'
            elif r < 0.55:
                o = {'op': 'serialize', 's': si, 'fmt': choice(rng, TEXT_FORMATS[:2] + ['yaml']),
                    'v': enc(gen.value(rng, specs[si], 'n', choice(rng, [0, 0.1])))}
            elif r < 0.6:
                fmt = choice(rng, ['yaml', 'yaml', 'structuredtext'])
                o = {'op': 'format_serialize', 'fmt': fmt, 'v': enc(plain(rng, 0, fmt == 'yaml'))}
            elif r < 0.66:
                o = {'op': 'pretty', 'v': enc(plain(rng, 0, False)), 'masks': choice(rng, [[], ['alpha']])}
            elif r < 0.74:
                o = {'op': 'format_serialize', 'fmt': 'xml', 's': n, 'v': enc(recased(rng, gen.xml_content(rng, 'x')))}
            elif r < 0.82:
                o = {'op': 'format_serialize', 'fmt': 'csv', 's': n + 1, 'v': enc(recased(rng, gen.csv_content(rng, 'x')))}
            elif r < 0.9:
                slot = 'e%d' % i
                ops.append({'op': 'derive', 's': n + 2, 'how': choice(rng, ['clone', 'reconstruct']), 'slot': slot})
                j = len(ops) - 1
                ops.append({'op': 'change', 's': 'slot:' + slot, 'how': 'redefine',
                    'values': enc(rng.sample(MANY, choice(rng, [1, 2, 4]))), 'strategy': choice(rng, ['append', 'replace']),
                    'deps': [j]})
                k = len(ops) - 1
                ops.append({'op': 'describe', 's': 'slot:' + slot, 'deps': [j, k]})
                o = {'op': 'process', 's': 'slot:' + slot, 'v': choice(rng, ['nope', 'alpha']), 'deps': [j, k]}
            elif r < 0.92:
                # many things wrong at once
                o = {'op': 'process', 's': choice(rng, [n + 4, n + 5]), 'ser': chance(rng, 0.5), 'phase': choice(rng,
                    ['inbound', 'outbound']), 'v': enc(dict((k, choice(rng, [1, 5, 'x'])) for k in rng.sample(MANY + ['zz', 'yy'],
                    choice(rng, [0, 1, 3, 7]))))}
            elif r < 0.94:
                o = {'op': 'process', 's': n + 3, 'ser': False, 'phase': 'inbound', 'v': {'%field': [choice(rng, ['date',
                    'integer', 'text']), {}]}}
            else:
                slot = 'd%d' % i
                ops.append({'op': 'derive', 's': si, 'how': choice(rng, ['clone', 'reconstruct', 'deepcopy']), 'slot': slot})
                o = dict(common.convert_op(rng, si, specs[si], 0.1), s='slot:' + slot, deps=[len(ops) - 1])
                if ops[-1]['how'] != 'reconstruct':     # descriptions leave declared orders out
                    o['spec'] = si
            ops.append(o)
        callers = choice(rng, [1, 2, 2, 3])
        return {'subs': subs, 'schemas': specs, 'tasks': [[dict(o) for o in ops] for t in range(callers)],
            'plan': common.plan(rng), 'final': [], 'salts': [1 + int(rng.random() * 1e6) for t in range(callers)],
            'sets': int(rng.random() * 1e6)}

    def evaluate(self, case, log=False):
        ev = common.Evaluation(case)
        vals.UNORDERED[0] = True
        try:
            # as given: mappings in the order they were written, sets as the interpreter enumerates them
            b = casemod.baselines(case)
            ev.solo_runs += len(b.ops)
            other = self.expanded(case)
            orders.SEED[0] = case['sets']
            before = orders.ITERATED[0]
            try:
                res = casemod.run_together(other, casemod.limits_of(b), casemod.horizon_of(b), log=log)
            finally:
                orders.SEED[0] = None
            ev.note(res)
            ev.res, ev.b = res, b
            ev.fired['order:mappings'] = ev.fired.get('order:mappings', 0) + sum(
                1 for t, ops in enumerate(case['tasks']) for i, o in enumerate(ops) if other['tasks'][t][i] != o)
            ev.fired['order:sets'] = ev.fired.get('order:sets', 0) + orders.ITERATED[0] - before
            self.judge(case, b, res, ev)
        finally:
            vals.UNORDERED[0] = False
        return ev

    def expanded(self, case):
        """The case in which every caller has schemas and values filled in its own order."""
        out = dict(case)
        size = len(case['schemas'])
        out['schemas'], out['tasks'] = [], []
        for t, ops in enumerate(case['tasks']):
            rng = orders.generator(case['salts'][t])
            out['schemas'].extend(orders.reorder(rng, s) for s in case['schemas'])
            mine = []
            for o in ops:
                o = orders.reorder_op(rng, o)
                if isinstance(o.get('s'), int):
                    o['s'] += t * size
                mine.append(o)
            out['tasks'].append(mine)
        return out

    def judge(self, case, b, res, ev):
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                expected, got = b.ops[(tid, i)], res.outcomes[tid][i]
                if o['op'] == 'nop' or expected is None or got is None:
                    continue
                if expected[0] == got[0] == 'exc' and 'exc:' in (expected[1], got[1]):
                    continue
                ev.count('compared')
                self.same(ev, 'op', expected, got, tid, i, o)
                if got[0] == 'ok':
                    self.declared(case, ev, tid, i, o, res.data[tid]['raw'].get(i))

    def declared(self, case, ev, tid, i, o, v):
        """Explicitly ordered schemas emit their declared order."""
        s = o.get('spec', o.get('s'))      # slots say which schema they were cloned from
        if o['op'] not in ('process', 'serialize', 'unserialize') or not isinstance(s, int):
            return
        if 'fmt' in o:
            if o['fmt'] != 'yaml':
                return
            import yaml
            try:
                v = yaml.safe_load(v)
            except Exception:
                return
        found = []
        settled(case['schemas'][s], found)
        for path, order in found:
            for part in reach(v, path):
                if not isinstance(part, dict):
                    continue
                keys = [k for k in part if k in order]
                want = [k for k in order if k in part]
                ev.count('ordered_mappings')
                if keys != want:
                    ev.add('declared-order', task=tid, op=i, what=o['op'], declared=order, emitted=keys)
                    return
