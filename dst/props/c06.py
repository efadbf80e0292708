from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import enc, obj, snapshot

FORMAT_MAP = {'xml': 0, 'csv': 1, 'path': 2}
INTERRUPTS = ['KeyboardInterrupt', 'SystemExit', 'Cancelled', 'MemoryError', 'RecursionError']


class C06(common.Check):
    """Operations leave their arguments as they were."""

    id = 'C06'
    repeats = True
    repeated = ('surrogate_op', 'element_op', 'reconstruct', 'visit', 'construct', 'interpolate_text', 'format_serialize', 'format_unserialize')
    quick = 1800

    def generate(self, rng):
        depth = choice(rng, [0, 1, 1, 2, 3])
        opt = gen.Options(refs=choice(rng, [0, 0.2]), callbacks=choice(rng, [0, 0.15, 0.3]), depth=depth,
            defaults=0.2, extras=0.2)
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 2]))
        specs = [gen.XML_SPEC, gen.CSV_SPEC, gen.CSV_PATH] + specs
        args, uses = [], []         # uses: operations that take a shared argument
        for i in range(choice(rng, [1, 2, 3])):
            uses.extend(self.shared(rng, specs, args))
        tasks, at, faults = [], [], []
        for t in range(choice(rng, [1, 1, 2, 3])):
            ops = []
            for i in range(choice(rng, [2, 4, 6])):
                r = rng.random()
                if uses and r < 0.5:
                    o = dict(choice(rng, uses))
                elif r < 0.6:
                    fmt, o = gen.codec_op(rng, FORMAT_MAP, 'c%d' % i, bad=0.2)
                else:
                    o = dict(choice(rng, self.shared(rng, specs, None)))
                o['watch'] = True
                if chance(rng, 0.15):
                    at.append([t, i, rng.random(), choice(rng, INTERRUPTS)])
                elif opt.callbacks and chance(rng, 0.15):
                    faults.append([t, i, choice(rng, [1, 1, 2]), choice(rng, ['CallbackFault', 'ValueError', 'TypeError'])])
                ops.append(o)
            tasks.append(ops)
        final = [dict(o, watch=True) for o in rng.sample(uses, min(len(uses), 3))]
        return {'subs': subs, 'schemas': specs, 'args': args, 'tasks': tasks, 'plan': common.plan(rng),
            'cbfaults': faults, 'final': final, 'at': at, 'watch_args': True}

    def shared(self, rng, specs, args):
        """Operations on one argument; it is shared when ``args`` is given."""
        def put(v, name='v', key='arg'):
            v = enc(v)
            if args is None:
                return {name: v}
            args.append(v)
            return {key: len(args) - 1}
        si = 3 + int(rng.random() * (len(specs) - 3))
        spec = specs[si]
        r = rng.random()
        bad = choice(rng, [0, 0, 0.2, 0.5])
        if r < 0.06:
            ops = [{'op': 'describe', 's': si, 'parameters': enc({'extra': [1, {'k': 'v'}], 'notes': None})},
                {'op': 'describe', 's': si, 'verbose': True, 'parameters': enc({'required': False, 'zz': {}})},
                {'op': 'clone', 's': si, 'params': enc({'aspects': {'flag': [1]}, 'notes': 'x', 'default': [{'a': []}]})},
                {'op': 'filter', 's': si, 'params': enc({'required': True}), 'all': True}]
            return ops
        if r < 0.12:
            return [self.construction(rng)]
        if r < 0.4:
            form = choice(rng, ['n', 's'])
            v = gen.value(rng, spec, form, bad)
            if chance(rng, 0.3):
                v = gen.carrier(rng, v)
            a = put(v)
            ops = [dict({'op': 'process', 's': si, 'ser': form == 's'}, **a),
                dict({'op': 'serialize', 's': si}, **a), dict({'op': 'extract', 's': si}, **a),
                dict({'op': 'instantiate', 's': si}, **a)]
            if form == 's':
                ops.append(dict({'op': 'unserialize', 's': si}, **a))
            if chance(rng, 0.3):
                ops.append(dict({'op': 'serialize', 's': si, 'fmt': choice(rng, ['json', 'yaml', 'structuredtext'])}, **a))
            return ops
        if r < 0.55:
            a = put(gen.template(rng, spec, common.PARAMS))
            b = put(gen.parameters(rng, common.PARAMS, 'z'), 'parameters', 'parg')
            o = dict({'op': 'interpolate', 's': si}, **dict(a, **b))
            o2 = dict(o, interp='INTERP_A')
            o3 = dict({'op': 'interpolate_text', 'v': choice(rng, ['${p}-${q}', '${many}', '${p|up}', '${fn(q)}']),
                'interp': 'INTERP_A'}, **b)
            return [o, o2, o3]
        if r < 0.72:
            d = gen.description(spec if chance(rng, 0.6) else gen.schema(rng, gen.Options(depth=2, callbacks=0)))
            if chance(rng, 0.1):
                d['fieldtype'] = choice(rng, ['nope', 'structure', None])
            a = put(d)
            return [dict({'op': 'reconstruct'}, **a), dict({'op': 'visit'}, **a),
                dict({'op': 'process', 's': '@DEF', 'ser': True}, **a),
                dict({'op': 'construct', 'type': 'sequence', 'params': enc({'item': d})})]
        if r < 0.9:
            impl = choice(rng, ['Point', 'Person', 'Loose'])
            v = {'x': 1, 'y': choice(rng, [2, 'bad']), 'labels': ['a']} if impl != 'Person' else \
                {'name': 'n', 'emails': ['e', 'f']}
            if chance(rng, 0.3):
                d = gen.description(['structure', {'structure': [['q', ['text', {}]], ['w', ['sequence', {'item':
                    ['integer', {}]}]]]}])
                a = put({'_': choice(rng, [None, 'dstapp.Loose', 'dstapp.Missing']), '__schema__': d, 'q': 'x',
                    'w': [1, choice(rng, [2, 'bad'])]})
            else:
                a = put(dict(v, **{'_': 'dstapp.' + impl, '__version__': choice(rng, [1, 2, 3])}
                    if chance(rng, 0.7) else {'_': 'dstapp.' + impl}))
            c = put(v)
            b = put({'n': 4, 'p': 'z', 'many': [1, 2]}, 'parameters', 'parg')
            return [dict({'op': 'surrogate_op', 'how': 'unserialize'}, **a),
                dict({'op': 'process', 's': '@SUR', 'ser': True}, **a),
                dict({'op': 'surrogate_op', 'how': 'interpolate'}, **dict(a, **b)),
                dict({'op': 'surrogate_op', 'how': 'construct', 'impl': impl, 'params': enc({'extra': [1]})}, **c),
                dict({'op': 'surrogate_op', 'how': 'construct', 'impl': impl, 'version': choice(rng, [1, 2])}, **c)]
        cls = choice(rng, ['Doc', 'Item', 'Animal', 'Shelf'])
        v = {'Doc': {'name': 'n', 'tags': ['a', 'b'], 'opts': {'k': 1}, 'meta': {'notes': ['q']}, 'when': '2001-02-03'},
            'Item': {'title': 't', 'values': [1, 2], 'raw': {'deep': [1, {'z': []}]}},
            'Animal': {'kind': choice(rng, ['dog', 'cat', 'fish', 'eel']), 'name': 'r', 'marks': ['x']},
            'Shelf': {'items': [{'title': 'a'}, {'title': 'b', 'values': [3]}], 'best': {'title': 'c'},
                'byname': {'k': {'name': 'n'}}}}[cls]
        a = put(v)
        return [dict({'op': 'element_op', 'cls': cls, 'how': 'unserialize'}, **a),
            dict({'op': 'element_op', 'cls': cls, 'how': 'instantiate'}, **a),
            dict({'op': 'element_op', 'cls': cls, 'how': 'new'}, **a),
            dict({'op': 'process', 's': 'cls:' + cls, 'ser': True}, **a)]

    def construction(self, rng):
        opt = gen.Options(callbacks=0, depth=1, poly=0.4, extras=0.4)
        kind = choice(rng, ['structure', 'structure', 'structure', 'tuple', 'union', 'enumeration', 'map', 'text'])
        o = {'op': 'construct_from', 'spec': gen.field(rng, kind, opt, 1 if kind != 'enumeration' else 0, choice(rng, [None, 'built']))}
        if chance(rng, 0.4):
            o['params'] = enc({'aspects': {'note': 1}, 'flag': 2})
        return o

    def judge(self, case, b, res, ev):
        for tid, ops in list(enumerate(case['tasks'])) + [('final', case['final'])]:
            raw = res.final_data['raw'] if tid == 'final' else res.data[tid]['raw']
            for i, o in enumerate(ops):
                if o['op'] == 'construct_from' and raw.get(i) == 'arguments changed':
                    ev.add('constructor', task=tid, op=i, what=o['spec'][0])
        skip = set((i[0], i[1]) for i in case.get('interrupts', ()))
        self.compare(case, b, res, ev, skip)
        for (tid, i), pairs in b.mutated.items():
            x, y = pairs[0]
            ev.add('mutated', alone=True, task=tid, op=i, what=case['tasks'][tid][i]['op'], **common.difference(x, y))
        for tid, data in enumerate(res.data):
            for i, pairs in data.get('mutated', {}).items():
                x, y = pairs[0]
                ev.add('mutated', task=tid, op=i, what=case['tasks'][tid][i]['op'], **common.difference(x, y))
        if not res.crashed:
            for k, text in enumerate(res.ctx.before):
                now = snapshot(res.ctx.args[k])
                if now != text:
                    ev.add('argument', arg=k, **common.difference(text, now))
            for i, pairs in res.final_data.get('mutated', {}).items():
                x, y = pairs[0]
                ev.add('mutated', task='final', op=i, what=case['final'][i]['op'], **common.difference(x, y))
