import json

from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import enc

RETURNS = ('process', 'serialize', 'unserialize', 'interpolate', 'extract', 'instantiate', 'describe', 'defaults', 'visit')


class C05(common.Check):
    """Using a schema never changes it."""

    id = 'C05'
    repeats = True
    callers = [1, 1, 1, 2]
    quick = 1600

    def generate(self, rng):
        if chance(rng, 0.35):
            return common.drill(rng, common.plan, choice(rng, [1, 1, 1, 2]), [8, 14, 20])
        depth = choice(rng, [0, 1, 1, 2, 3])
        opt = gen.Options(refs=choice(rng, [0, 0.3]), callbacks=choice(rng, [0, 0.15]), depth=depth,
            defaults=choice(rng, [0.1, 0.5]), extras=0.3, kinds=('preprocessor', 'extractor', 'instantiator'))
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 1, 2]))
        pools = [[] for s in specs]
        args, tasks, faults = [], [], []
        for t in range(choice(rng, [1, 1, 1, 2])):
            ops, own, changes = [], [], {}
            returned = []
            for i in range(choice(rng, [3, 6, 10, 16])):
                si = int(rng.random() * len(specs))
                r = rng.random()
                if returned and r < 0.2:
                    ops.append({'op': 'spoil', 'of': choice(rng, returned), 'nobase': True})
                    continue
                if own and r < 0.27:
                    k, asi = choice(rng, own)
                    to = gen.value(rng, specs[asi], 'n', 0.2)
                    old = args[k]
                    if isinstance(old, list) == isinstance(enc(to), list) and isinstance(to, (list, dict)):
                        ops.append({'op': 'change_arg', 'arg': k, 'to': enc(to), 'deps': sorted(changes.get(k, ()))})
                        changes.setdefault(k, []).append(i)
                        continue
                if own and r < 0.4:
                    k, asi = choice(rng, own)
                    o = {'op': choice(rng, ['process', 'serialize', 'extract', 'instantiate']), 's': asi, 'arg': k,
                        'deps': sorted(changes.get(k, ()))}
                    ops.append(o)
                    continue
                if r < 0.47:
                    v = enc(gen.value(rng, specs[si], 'n', 0.1))
                    if isinstance(v, list) or isinstance(v, dict) and list(v)[0] == '%d':
                        own.append((len(args), si))
                        args.append(v)
                        ops.append({'op': 'process', 's': si, 'arg': len(args) - 1})
                        continue
                o = common.use_op(rng, si, specs[si], choice(rng, [0.1, 0.4, 0.8]), pool=pools[si])
                if o['op'] in RETURNS:
                    returned.append(i)
                if opt.callbacks and chance(rng, 0.1):
                    faults.append([t, i, 1, choice(rng, ['CallbackFault', 'ValueError', 'TypeError', 'KeyError'])])
                ops.append(o)
            tasks.append(ops)
        final = []
        for si, spec in enumerate(specs):
            final.append({'op': 'describe', 's': si})
            final.append({'op': 'repr', 's': si})
            v = choice(rng, pools[si]) if pools[si] and chance(rng, 0.7) else enc(gen.value(rng, spec, 'n', 0.1))
            if chance(rng, 0.5):
                v = gen.lookalike(rng, v)
            final.append({'op': 'process', 's': si, 'v': v, 'phase': choice(rng, ['inbound', 'outbound']),
                'ser': chance(rng, 0.5)})
            final.append({'op': 'process', 's': si, 'v': choice(rng, [None, {'%d': []}, [], enc(gen.value(rng, spec, 'n'))])})
            if spec[0] == 'structure':
                final.append({'op': 'process', 's': si, 'v': enc({'type': spec[1]['variants'][0][0]}
                    if 'variants' in spec[1] else {})})
        return {'subs': subs, 'schemas': specs, 'args': args, 'tasks': tasks, 'plan': common.plan(rng),
            'cbfaults': faults, 'final': final}
