from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import enc


class C18(common.Check):
    """Schema-based objects share no state with each other."""

    id = 'C18'
    quick = 650

    def generate(self, rng):
        specs = [gen.DYNAMIC_SPEC]
        args, tasks = [], []
        kinds = choice(rng, [['element'], ['surrogate'], ['element', 'surrogate']])
        for t in range(choice(rng, [1, 2, 2, 3])):
            ops, made, spoiled, shared = [], [], {}, []
            for i in range(choice(rng, [3, 5, 8, 12])):
                tag = 'c%do%d' % (t, i)
                r = rng.random()
                if made and r < 0.2:
                    j = choice(rng, made)
                    ops.append({'op': 'spoil', 'of': j, 'nobase': True})
                    spoiled[j] = True
                    continue
                if spoiled and r < 0.25:
                    ops.append({'op': 'touch', 'of': choice(rng, list(spoiled)), 'nobase': True,
                        'how': choice(rng, ['serialize', 'serialize', 'again', 'extract', 'repr'])})
                    continue
                fresh = [j for j in made if j not in spoiled]
                if fresh and r < 0.45:
                    j = choice(rng, fresh)
                    ops.append({'op': 'peek', 'of': j, 'deps': [j]})
                    continue
                if fresh and r < 0.52:
                    j = choice(rng, fresh)
                    ops.append({'op': 'wire_of', 'of': j, 'deps': [j]})
                    made.append(i)
                    continue
                if ops and ops[-1]['op'] == 'object_again' and ops[-1]['of'] in fresh and r < 0.8:
                    ops.append({'op': 'same_as', 'of': ops[-1]['of'], 'with': i - 1, 'deps': [ops[-1]['of'], i - 1]})
                    continue
                if fresh and r < 0.6:
                    # another object made from an existing one
                    j = choice(rng, fresh)
                    o = {'op': 'object_again', 'of': j, 'how': choice(rng, ['wire', 'wire', 'schema', 'json']), 'deps': [j]}
                    ops.append(o)
                    made.append(i)
                    continue
                o = gen.element_op(rng, tag) if choice(rng, kinds) == 'element' else gen.surrogate_op(rng, tag)
                if shared and chance(rng, 0.5):
                    o = choice(rng, shared)
                elif o['op'] == 'element_op' and o['how'] in ('unserialize', 'instantiate') and 'fmt' not in o \
                        and o['cls'] in ('Doc', 'Animal', 'Tagged') or o['op'] == 'surrogate_op' and 'v' in o \
                        and o['how'] == 'unserialize' and o['v'].get('%d') and ('Point' in str(o['v']) or 'Person' in str(o['v'])):
                    # several objects from one value
                    args.append(o.pop('v'))
                    o['arg'] = len(args) - 1
                    if o['op'] == 'element_op':
                        o['how'] = 'unserialize'
                    shared.append(o)
                ops.append(dict(o))
                made.append(i)
            for j in made:
                if j not in spoiled:
                    ops.append({'op': 'peek', 'of': j, 'deps': [j]})
            tasks.append(ops)
        final = []
        for i in range(3):
            final.append(gen.element_op(rng, 'f%d' % i, 0) if choice(rng, kinds) == 'element'
                else gen.surrogate_op(rng, 'f%d' % i, bad=0))
        for cls in ('Doc', 'Item', 'Tagged', 'Shelf', 'Dog', 'Cat'):
            final.append({'op': 'element_op', 'cls': cls, 'how': 'new', 'v': enc({'kind': cls.lower()} if cls in ('Dog', 'Cat')
                else {})})
        final.append({'op': 'describe', 's': choice(rng, ['cls:Doc', 'cls:Animal', 'cls:Tagged', 'cls:Item'])})
        final.append({'op': 'surrogate_op', 'how': 'construct', 'impl': 'Point', 'v': enc({'x': 1, 'y': 2})})
        return {'subs': [], 'schemas': specs, 'args': args, 'tasks': tasks, 'plan': common.plan(rng), 'final': final,
            'watch_args': True}

    def judge(self, case, b, res, ev):
        self.compare(case, b, res, ev)
        everything = [(tid, i, o, res.outcomes[tid][i], res.data[tid]['raw'].get(i)) for tid, ops in enumerate(case['tasks'])
            for i, o in enumerate(ops)]
        everything += [('final', i, o, res.final[i], res.final_data['raw'].get(i)) for i, o in enumerate(case['final'])]
        for tid, i, o, got, raw in everything:
            if got is None or got[0] != 'ok':
                continue
            if o['op'] == 'peek':
                ev.count('objects_read_again')
            elif o['op'] == 'same_as':
                ev.count('round_trips')
                if raw not in ('same', 'no object') and not self.constructed(case['tasks'][tid], o['of']):
                    ev.add('not-equal', task=tid, op=i, made=case['tasks'][tid][o['of']], read=raw)
            elif o.get('how') == 'roundtrip' and o['op'] in ('element_op', 'surrogate_op'):
                ev.count('round_trips')
                if o['op'] == 'element_op' and raw[1:] != (True, True):
                    ev.add('not-equal', task=tid, op=i, made=o, read=raw)
                elif o['op'] == 'surrogate_op' and raw[2:4] != (True, True):
                    ev.add('other-class', task=tid, op=i, made=o, read=raw)

    def constructed(self, ops, i):
        """Whether an object was made from values as they are (they may not be ones its schema allows)."""
        o = ops[i]
        while o['op'] == 'object_again':
            return False
        return o['op'] == 'element_op' and o['how'] in ('new', 'instantiate')
