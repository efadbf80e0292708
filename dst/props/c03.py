from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import enc

MAP = {'xml': 0, 'csv': 1, 'path': 2}


class C03(common.Check):
    """Format work never mixes documents."""

    id = 'C03'
    repeats = True
    repeated = ('format_serialize', 'format_unserialize', 'roundtrip')

    def generate(self, rng):
        schemas = [gen.XML_SPEC, gen.CSV_SPEC, gen.CSV_PATH]
        # a random schema shared by some conversions as well
        opt = gen.Options(leaves=gen.JSONABLE, structural=['sequence', 'tuple', 'map', 'structure'], callbacks=0,
            depth=2, poly=0.1)
        subs, more = gen.schemas(rng, opt, 1, 0)
        schemas = schemas + more
        tasks, at = [], []
        only = choice(rng, [None, None, [choice(rng, gen.FORMATS)]])
        leaves = gen.heavy(rng, '@') if chance(rng, 0.45) else None
        if leaves and not only:
            only = [choice(rng, ['json', 'yaml', 'yaml', 'structuredtext', 'urlencoded'])]
        for t in range(choice(rng, [1, 2, 2, 3, 3])):
            ops = []
            for i in range(choice(rng, [1, 2, 3, 4, 6])):
                tag = 'c%do%d' % (t, i)
                r = rng.random()
                earlier = [j for j, o in enumerate(ops) if o['op'] == 'format_serialize']
                if earlier and r < 0.25:
                    j = choice(rng, earlier)
                    o = {'op': 'format_unserialize', 'fmt': ops[j]['fmt'], 'pick': j, 'deps': [j]}
                    if 's' in ops[j]:
                        o['s'] = ops[j]['s']
                elif r < 0.35:
                    fmt = choice(rng, ['json', 'yaml', 'structuredtext', 'xml'])
                    o = {'op': choice(rng, ['serialize', 'roundtrip']), 's': 3, 'fmt': fmt,
                        'v': enc(gen.value(rng, schemas[3], 'n', 0.1))}
                else:
                    fmt, o = gen.codec_op(rng, MAP, tag, bad=0.25 if not leaves else 0.1, formats=only, leaves=leaves,
                        encode=0.55 if not leaves else 0.85)
                if chance(rng, 0.15):
                    at.append([t, i, rng.random(), choice(rng, ['KeyboardInterrupt', 'Cancelled', 'SystemExit',
                        'MemoryError'])])
                    o['cut'] = True
                ops.append(o)
            tasks.append(ops)
        final = []
        for i in range(choice(rng, [1, 2, 3])):
            final.append(gen.codec_op(rng, MAP, 'f%d' % i, bad=0.1, formats=only if chance(rng, 0.5) else None,
                leaves=leaves)[1])
        case = {'subs': subs, 'schemas': schemas, 'tasks': tasks, 'plan': common.plan(rng), 'at': at, 'final': final,
            'env': {'stdout_fails': chance(rng, 0.5)}}
        return case

    def judge(self, case, b, res, ev):
        skip = set((i[0], i[1]) for i in case.get('interrupts', ()))
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                if any((tid, d) in skip for d in o.get('deps', ())):
                    skip.add((tid, i))
        self.compare(case, b, res, ev, skip)
        if res.stdout:
            ev.add('stdout', writes=[[list(w), common.short(t, 200)] for w, t in res.stdout[:3]])
