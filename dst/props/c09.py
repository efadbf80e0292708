from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.props.c04 import NAMES, TEMPLATES
from dst.vals import enc

SURFACING = ('KeyboardInterrupt', 'SystemExit', 'Cancelled')
EXHAUSTION = ('MemoryError', 'RecursionError')
REFERENCES = ['dstapp.EQ_A', 'dstapp_late.LatePoint', 'dstapp_late.Late', 'dstapp_late.VALUE', 'dstapp:Holder.inner',
    'dstapp_late:Late.Inner', 'json.dumps', 'dstapp_extra.LatePoint', 'dstapp.nothing', 'os.path']
OBJECTS = ['EQ_A', 'EQ_B', 'fn_one', 'fn_two', 'PL_A', 'PL_B', 'Plain', 'Holder', 'UN_A']
TYPES = ['integer', 'text', 'structure', 'sequence', 'map', 'datetime', 'enumeration', 'nothing']


class C09(common.Check):
    """Interrupted calls."""

    id = 'C09'
    quick = 1500

    def generate(self, rng):
        style = choice(rng, ['mix', 'mix', 'storm', 'storm', 'focus', 'endure'])
        opt = gen.Options(refs=choice(rng, [0, 0.2]), callbacks=choice(rng, [0, 0, 0.2]), depth=choice(rng, [0, 1, 2, 2, 3]),
            kinds=('preprocessor', 'extractor', 'instantiator'), extras=0.15)
        if chance(rng, 0.5):
            # without unions, which answer an exhausted alternative by trying the next
            opt.structural = ['sequence', 'tuple', 'map', 'structure', 'structure']
        if style == 'endure':
            opt.depth, opt.members, opt.callbacks = 1, 2, 0
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 1, 2]))
        n = len(specs)
        specs = specs + [gen.XML_SPEC, gen.CSV_SPEC, gen.CSV_PATH, gen.DYNAMIC_SPEC]
        places = {'xml': n, 'csv': n + 1, 'path': n + 2}
        self.n = n
        focus = choice(rng, ['use', 'codec', 'interpolate', 'surrogate', 'element', 'names', 'clock'])
        kinds = ['use'] * 5 + ['codec', 'codec', 'interpolate', 'surrogate', 'element', 'names', 'names', 'clock']
        args, tasks, at = [], [], []
        for t in range(choice(rng, [1, 1, 2, 3])):
            ops = []

            def hit(i, p=0.6):
                names = SURFACING if chance(rng, 0.75) else EXHAUSTION
                at.append([t, i, p, choice(rng, names)])
            if style == 'endure':
                # one call of one small schema interrupted over and over
                o = None
                while o is None or o['op'] in ('screen', 'get'):
                    o = common.use_op(rng, 0, specs[0], 0.1, allow=['convert', 'interpolate', 'extract', 'extract', 'instantiate',
                        'describe', 'clone', 'repr', 'filter', 'defaults', 'transform', 'visit', 'redescribe'])
                o['watch'] = True
                count = choice(rng, [12, 24, 40])
                for i in range(count):
                    ops.append(dict(o))
                    hit(i, (i + rng.random()) / count)
                ops.append(dict(o))
            elif style == 'storm':
                o = self.call(rng, focus if chance(rng, 0.5) else choice(rng, kinds), 'c%d' % t, specs, places, args)
                count = choice(rng, [2, 4, 7, 7] if opt.depth > 1 else [2, 4, 7, 12, 20])
                for i in range(count):
                    ops.append(dict(o))
                    hit(i, (i + rng.random()) / count)
                ops.append(dict(o))
            else:
                for i in range(choice(rng, [1, 2, 3, 4])):
                    o = self.call(rng, focus if style == 'focus' else choice(rng, kinds), 'c%do%d' % (t, i), specs, places, args)
                    ops.append(o)
                    if chance(rng, 0.6):
                        hit(len(ops) - 1, rng.random())
                        if chance(rng, 0.15):
                            hit(len(ops) - 1, rng.random())
                        ops.append(dict(o))
                        if chance(rng, 0.3):
                            hit(len(ops) - 1, rng.random())
                    if chance(rng, 0.15) and not any(x[:2] == [t, len(ops) - 1] for x in at):
                        ops.append({'op': 'report_back', 'of': len(ops) - 1, 'deps': [len(ops) - 1]})
                        ops.append(dict(ops[-1]))
                        hit(len(ops) - 2, rng.random())
            tasks.append(ops)
        final = []
        for si, spec in enumerate(specs[:n]):
            final.append({'op': 'describe', 's': si})
            final.append(common.convert_op(rng, si, spec, 0.2))
            final.append({'op': 'process', 's': si, 'v': choice(rng, [None, {'%d': []}, []])})
        for i in range(3):
            final.append(self.names(rng))
        final.append({'op': 'interpolate_text', 'v': choice(rng, TEMPLATES), 'parameters': enc(gen.parameters(rng, NAMES, 'f'))})
        final.append(gen.surrogate_op(rng, 'f', n + 3))
        final.append(gen.element_op(rng, 'f'))
        final.append({'op': 'construct', 'type': choice(rng, TYPES)})
        strike = None
        if chance(rng, 0.35):
            strike = [rng.getrandbits(30), None, choice(rng, [0.01, 0.03, 0.1, 0.3]), SURFACING if chance(rng, 0.75) else EXHAUSTION]
            at = [x for x in at if chance(rng, 0.3)]
        return {'subs': subs, 'schemas': specs, 'args': args, 'tasks': tasks, 'plan': common.plan(rng), 'at': at,
            'strike': strike, 'final': final, 'env': {'clock': [1000000000.0, 0.001]}}

    def names(self, rng):
        r = rng.random()
        if r < 0.4:
            return {'op': 'import_name', 'name': choice(rng, REFERENCES)}
        if r < 0.7:
            return {'op': choice(rng, ['identify', 'identify_back']), 'v': {'%obj': choice(rng, OBJECTS)}}
        if r < 0.85:
            return {'op': 'format_lookup', 'fmt': choice(rng, choice(rng, list(gen.KEYS.values())))}
        return {'op': 'construct', 'type': choice(rng, TYPES)}

    def call(self, rng, kind, tag, specs, places, args):
        if kind == 'use':
            si = int(rng.random() * self.n)
            o = common.use_op(rng, si, specs[si], choice(rng, [0, 0.2, 0.5]))
            if 'v' in o and chance(rng, 0.3) and (isinstance(o['v'], list) or isinstance(o['v'], dict) and '%d' in o['v']):
                args.append(o.pop('v'))
                o['arg'] = len(args) - 1
        elif kind == 'codec':
            o = gen.codec_op(rng, places, tag, 0.15)[1]
        elif kind == 'interpolate':
            o = {'op': 'interpolate_text', 'v': choice(rng, TEMPLATES), 'parameters': enc(gen.parameters(rng, NAMES, tag)),
                'simple': chance(rng, 0.5)}
            if chance(rng, 0.5):
                o['interp'] = choice(rng, ['INTERP_A', 'INTERP_B'])
        elif kind == 'surrogate':
            o = gen.surrogate_op(rng, tag, self.n + 3)
            if 'schema' in o:
                o['schema'] = self.n + 3
        elif kind == 'element':
            o = gen.element_op(rng, tag)
        elif kind == 'clock':
            si = int(rng.random() * self.n)
            o = choice(rng, [{'op': 'process', 's': '@DEF', 'v': {'fieldtype': 'text'}},
                {'op': 'process', 's': '@SUR', 'ser': True, 'v': {'%d': [['_', 'dstapp_late.LatePoint'], ['a', 1]]}},
                {'op': 'reconstruct', 'v': enc(gen.description(specs[si]))}, {'op': 'redescribe', 's': si}])
            if o['op'] == 'process' and o['s'] == '@DEF':
                o = dict(o, ser=True, v=enc(o['v']))
        else:
            o = self.names(rng)
        o['watch'] = True
        return o

    def judge(self, case, b, res, ev):
        sent = {}
        for tid, data in enumerate(res.data):
            for i, names in data.get('hits', {}).items():
                sent[(tid, i)] = names
        skip = set(sent)
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                # reading the report of a call that was cut short
                if any((tid, d) in skip for d in o.get('deps', ())):
                    skip.add((tid, i))
        self.compare(case, b, res, ev, skip)
        unions = any(s[0] in ('union', 'ref') for spec in case['schemas'] for x, s in gen.walk(spec))
        for (tid, i), names in sorted(sent.items()):
            if i < 0 or i >= len(case['tasks'][tid]):
                continue
            o, got, alone = case['tasks'][tid][i], res.outcomes[tid][i], b.ops[(tid, i)]
            if got is None:
                continue
            ev.count('interrupted_calls')
            if i and case['tasks'][tid][i - 1] == o and (tid, i - 1) in sent:
                ev.count('interrupted_again')
            if got[0] == 'stuck':
                ev.add('interrupt:stuck', task=tid, op=i, what=o['op'], sent=names)
                continue
            hard = [x for x in names if x in SURFACING]
            if hard:
                if tuple(got) not in [('base', x) for x in hard]:
                    ev.add('interrupt:lost', task=tid, op=i, what=o['op'], sent=names, observed=common.short(got))
            elif got[0] == 'ok' and not unions and tuple(got) != tuple(alone) and 'sur:scheme.surrogate.surrogate:' not in got[1]:
                # (a surrogate class that cannot be loaded is answered by the plain one)
                ev.add('exhaustion:wrong', task=tid, op=i, what=o['op'], sent=names, **common.difference(alone, got))
            elif got[0] == 'ok':
                ev.count('exhaustion_survived')
        for tid, data in enumerate(res.data):
            for i in data.get('mutated', {}):
                if (tid, i) not in b.mutated:
                    ev.add('argument', task=tid, op=i, what=case['tasks'][tid][i]['op'],
                        changed=common.short(data['mutated'][i]))
