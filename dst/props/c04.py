from dst import gen
from dst.gen import chance, choice
from dst.props import common, templates
from dst.vals import enc

NAMES = ['p', 'q', 'r']
TEMPLATES = ['${p}', 'x ${q} y', '${p} and ${q}', '${up}', '${p|up}', '${fn(p)}', '${pair(p, q)}', '${missing}',
    '${missing.attr}', '{% for i in many %}${i},{% endfor %}', '{% set p = q %}${p}', '${p', '{% if n %}${r}{% endif %}',
    'plain', '', '${n + m}', '${twice(n)}', '${many}', '${p ~ q}', '{% set g = p %}${g}${r|default("none")}',
    '{% macro m2(a) %}[${a}]{% endmacro %}${m2(p)}${m2(q)}', '${loop}', '${many|join("-")}', '${r.upper()}',
    '${nosuch(p)}', '${p|nosuch}', '{% include "x" %}', '  ${ p }  ', '${ n }', '${many[0]}', '${{"k": p}}', '${[p, q]}', '${tool}', '${tool()}',
    '${box.k}', '[${box.l[0]}]', '${tool() ~ p}', '[${tool}]', '[${box}]',
    '${fresh()}', '${fresh()}', '${fresh(p)}', '${ fresh(1, n) }', '${fresh(who)}', '${who}', 'a ${fresh()}']


class C04(common.Check):
    """Interpolation with the caller's own parameters."""

    id = 'C04'
    repeats = True
    repeated = ('interpolate_text', 'evaluate', 'surrogate_op')
    quick = 1800

    def generate(self, rng):
        if chance(rng, 0.4):
            return self.known(rng)
        opt = gen.Options(leaves=['text', 'integer', 'text', 'float', 'decimal', 'date', 'boolean', 'surrogate', 'field',
            'token', 'enumeration', 'text'], callbacks=0, constants=0, defaults=0.05, depth=choice(rng, [0, 1, 2, 3]),
            refs=0.1, bounds=0.1, extras=0.05)
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 2]))
        args = []
        tasks, at, faults = [], [], []
        for t in range(choice(rng, [1, 2, 2, 3, 4])):
            ops = []
            for i in range(choice(rng, [1, 2, 3, 4, 6])):
                tag = 'c%do%d' % (t, i)
                if ops and ops[-1]['op'] != 'spoil' and chance(rng, 0.2):
                    # callers may do what they want with what they were given
                    ops.append({'op': 'spoil', 'of': i - 1, 'nobase': True})
                    continue
                if i > 1 and ops[-1]['op'] == 'spoil' and chance(rng, 0.4):
                    ops.append(dict(ops[-2]))
                    continue
                params = enc({}) if chance(rng, 0.1) else enc(gen.parameters(rng, NAMES, tag))
                interp = choice(rng, [None, None, 'INTERP_A', 'INTERP_B'])
                if chance(rng, 0.4):
                    o = {'op': 'interpolate_text', 'v': choice(rng, TEMPLATES), 'parameters': params,
                        'simple': chance(rng, 0.5)}
                else:
                    si = int(rng.random() * len(specs))
                    v = gen.template(rng, specs[si], NAMES) if not chance(rng, 0.07) else choice(rng, ['${p}', '${many}',
                        5, ['${p}'], {'a': '${p}'}])
                    o = {'op': 'interpolate', 's': si, 'v': enc(v), 'parameters': params}
                if interp:
                    o['interp'] = interp
                if chance(rng, 0.12):
                    at.append([t, i, rng.random(), choice(rng, ['KeyboardInterrupt', 'Cancelled', 'SystemExit'])])
                if interp and chance(rng, 0.3):
                    faults.append([t, i, choice(rng, [1, 1, 2, 3]), choice(rng, ['CallbackFault', 'KeyError', 'TypeError',
                        'AttributeError', 'ValueError'])])
                ops.append(o)
            tasks.append(ops)
        final = [{'op': 'interpolate_text', 'v': choice(rng, TEMPLATES), 'parameters': enc(gen.parameters(rng, NAMES, 'f')),
            'simple': chance(rng, 0.5)} for i in range(2)]
        if chance(rng, 0.3):
            final[0]['interp'] = choice(rng, ['INTERP_A', 'INTERP_B'])
        return {'subs': subs, 'schemas': specs, 'args': args, 'tasks': tasks, 'plan': common.plan(rng), 'at': at,
            'cbfaults': faults, 'final': final}

    def known(self, rng):
        """Templates whose result is computed without the library."""
        specs = [templates.schema(rng, choice(rng, [1, 2, 3]), True) for i in range(choice(rng, [1, 2]))]
        tasks, at = [], []
        for t in range(choice(rng, [1, 2, 2, 3, 4])):
            ops = []
            for i in range(choice(rng, [1, 2, 3, 4])):
                si = int(rng.random() * len(specs))
                ops.append(templates.operation(rng, si, specs[si], 'c%do%d' % (t, i)))
                if chance(rng, 0.08):
                    at.append([t, i, rng.random(), choice(rng, ['KeyboardInterrupt', 'Cancelled', 'SystemExit'])])
            tasks.append(ops)
        final = [templates.operation(rng, 0, specs[0], 'f')]
        return {'subs': [], 'schemas': specs, 'args': [], 'tasks': tasks, 'plan': common.plan(rng), 'at': at,
            'final': final}

    def absolute(self, case, res, ev, skip):
        everything = [(tid, i, o, res.data[tid]['raw']) for tid, ops in enumerate(case['tasks']) for i, o in enumerate(ops)]
        everything += [('final', i, o, res.final_data['raw']) for i, o in enumerate(case.get('final', ()))]
        for tid, i, o, raw in everything:
            if 'wanted' in o and (tid, i) not in skip and i in raw:
                ev.count('results_computed')
                got = templates.got(raw[i])
                if got != o['wanted']:
                    ev.add('not-the-result', task=tid, op=i, interp=o.get('interp'), **common.difference(o['wanted'], got))

    def judge(self, case, b, res, ev):
        skip = set((i[0], i[1]) for i in case.get('interrupts', ()))
        self.compare(case, b, res, ev, skip)
        self.absolute(case, res, ev, skip)
        for tid, i in skip:
            got = res.outcomes[tid][i]
            names = [x[3] for x in case['interrupts'] if (x[0], x[1]) == (tid, i)]
            if got is not None and tuple(got) != tuple(b.ops[(tid, i)]) and got not in [('base', n) for n in names]:
                ev.add('interrupt:lost', task=tid, op=i, sent=names, observed=common.short(got))
