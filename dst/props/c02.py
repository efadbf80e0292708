import re

from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import canon, dec

BROKEN = re.compile(r'verr:\w+:!|:!(?:TypeError|KeyError|AttributeError|ValueError|IndexError|RuntimeError|UnicodeError)')


class C02(common.Check):
    """Reports belong to the call that failed."""

    id = 'C02'
    quick = 2000
    repeats = True

    def generate(self, rng):
        opt = gen.Options(refs=0.3, callbacks=choice(rng, [0, 0.1, 0.4]), kinds=('preprocessor',),
            depth=choice(rng, [0, 1, 2, 3]), extras=0.3, bounds=0.7)
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 1, 2]))
        pools = [[] for s in specs]
        tasks = []
        for t in range(choice(rng, [1, 2, 2, 3])):
            ops = []
            open_, touched, order, shares = [], {}, {}, {}
            for i in range(choice(rng, [2, 3, 5, 7])):
                r = rng.random()
                if open_ and r < 0.3:
                    of = choice(rng, open_)
                    deps = [of] + sorted(touched.get(of, ()))
                    if touched.get(of):
                        # reading and noting alternate in the order they happened
                        deps = [of] + sorted(touched[of] | order.get(of, set()))
                    ops.append({'op': choice(rng, ['render', 'render', 'report_back']), 'of': of, 'deps': deps})
                    order.setdefault(of, set()).add(i)
                elif open_ and r < 0.37:
                    of, other = choice(rng, open_), choice(rng, open_)
                    deps = set([of, other])
                    for x in (of, other):
                        deps |= touched.get(x, set()) | (order.get(x, set()) if touched.get(x) else set())
                    for x in (of, other):
                        order.setdefault(x, set()).add(i)
                    ops.append({'op': 'annotate', 'of': of, 'with': other, 'how': choice(rng, ['collect', 'collect', 'wrap']),
                        'text': 'own %d of caller %d' % (i, t), 'plain': chance(rng, 0.7), 'deps': sorted(deps)})
                elif open_ and r < 0.5:
                    of = choice(rng, open_)
                    how = choice(rng, ['append', 'text', 'merge', 'attach', 'capture', 'edit', 'deep'])
                    o = {'op': 'annotate', 'of': of, 'how': how, 'text': 'note %d of caller %d' % (i, t),
                        'deps': [of] + sorted(touched.get(of, set()) | order.get(of, set()))}
                    if how == 'merge' and chance(rng, 0.5):
                        other = choice(rng, open_)
                        o['with'] = other
                        o['deps'] = sorted(set(o['deps']) | set([other]) | touched.get(other, set())
                            | order.get(other, set()))
                        touched.setdefault(of, set()).update(touched.get(other, set()) | set([other]))
                        # they have entries in common from here on
                        group = shares.get(of, set([of])) | shares.get(other, set([other]))
                        for x in group:
                            shares[x] = group
                    ops.append(o)
                    touched.setdefault(of, set()).add(i)
                    if how in ('edit', 'deep') and len(shares.get(of, ())) > 1:
                        o['also'] = sorted(shares[of] - set([of]))
                        for x in shares[of]:
                            o['deps'] = sorted(set(o['deps']) | set([x]) | touched.get(x, set()) | order.get(x, set()))
                        o['deps'] = [d for d in o['deps'] if d != i]
                        for x in o['also']:
                            touched.setdefault(x, set()).add(i)
                else:
                    si = int(rng.random() * len(specs))
                    o = common.convert_op(rng, si, specs[si], bad=choice(rng, [0.2, 0.5, 0.9]), pool=pools[si])
                    o['late'] = chance(rng, 0.7)
                    ops.append(o)
                    open_.append(i)
            # everything still unread is read at the end
            for of in open_:
                if ops[of].get('late') and chance(rng, 0.8):
                    deps = sorted(set([of]) | touched.get(of, set()) | (order.get(of, set()) if touched.get(of) else set()))
                    ops.append({'op': 'render', 'of': of, 'deps': deps})
            tasks.append(ops)
        faults = []
        if opt.callbacks:
            for t, ops in enumerate(tasks):
                for i, o in enumerate(ops):
                    if o['op'] in ('process', 'serialize', 'unserialize') and chance(rng, 0.3):
                        faults.append([t, i, 1, choice(rng, ['CallbackFault', 'ValueError', 'TypeError'])])
        return {'subs': subs, 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng), 'cbfaults': faults}

    def judge(self, case, b, res, ev):
        self.compare(case, b, res, ev)
        noted = set()
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                if o['op'] == 'annotate' and o['how'] not in ('collect', 'wrap'):
                    noted.add((tid, o['of']))
                    noted.update((tid, x) for x in o.get('also', ()))
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                got = res.outcomes[tid][i]
                if got is None or o['op'] == 'annotate' or (tid, o.get('of')) in noted:
                    continue
                if any(k[0] == tid and k[1] == i for k in noted):
                    continue
                for g in (got, b.ops[(tid, i)]):
                    text = g[1] if len(g) > 1 else ''
                    if text.startswith('verr:') and BROKEN.search(text):
                        ev.add('unreadable', task=tid, op=i, report=common.short(text))
                        break
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                e = res.data[tid]['raw'].get(i)
                if o['op'] in CALLS and isinstance(e, res.ctx.world.scheme.StructuralError) and (tid, i) not in noted:
                    ev.count('reports_located')
                    problem = located(case, o, e, res.ctx)
                    if problem:
                        ev.add('misplaced', task=tid, op=i, field=case['schemas'][o['s']], value=o.get('v'), problem=problem,
                            report=common.short(res.outcomes[tid][i]))


NORMALIZED = ('datetime', 'email')    # fields which report the value as they understood it
CALLS = ('process', 'serialize', 'unserialize')


def parts(spec):
    subs = gen.SUBS
    return [s for path, s in gen.walk(spec)] + [x for path, s in gen.walk(spec) if s[0] == 'ref'
        for y, x in gen.walk(subs[s[1]])]


def located(case, o, e, ctx):
    """Compares the places, fields and values a report names with the data the call was given."""
    gen.SUBS[:] = case['subs']
    root = spec = case['schemas'][o['s']]
    everything = parts(spec)
    kinds = set(s[0] for s in everything)
    if 'error' in kinds:
        return
    if spec[0] == 'ref':
        spec = case['subs'][spec[1]]
    given = None
    if not (o.get('ser') or o['op'] == 'unserialize') and 'surrogate' not in kinds and 'v' in o \
            and not any('preprocessor' in s[1] for s in everything if s[0] not in ('ref', 'undef', 'cls')):
        given = dec(o['v'], ctx.world, ctx)
    start = spec[1].get('name') or '(%s)' % spec[0]
    if list(e.identity[:1]) != [start] and root is spec:     # a shared field takes the name of a member it is used as
        return 'the report is at %r, not %r' % (e.identity, start)
    lines = []

    def at(path, value):
        for k in path:
            value = value[k]
        return value

    def visit(node, path):
        items = node.structure
        if items is None:
            for error in node.errors:
                lines.append(' at %s: ' % ''.join(node.identity))
            if given is not None and node.value is not None and path is not None and node.field.type not in NORMALIZED:
                try:
                    wanted = at(path, given)
                except Exception:
                    return
                if len(node.identity) == len(path) + 1 and token(node) != 'unrecognized' and canon(wanted) != canon(node.value):
                    return 'at %s the value is %s, the report says %s' % (node.identity, canon(wanted), canon(node.value))
            return
        dots = node.field.type == 'structure'
        for k, child in (items.items() if isinstance(items, dict) else enumerate(items)):
            if not isinstance(child, ctx.world.scheme.StructuralError):
                continue
            here = list(node.identity) + [('.%s' if dots else '[%s]') % (k,)]
            if child.structure is None and token(child) in ('required', 'unknown') and child.field is node.field:
                if list(child.identity) != list(node.identity):
                    return 'the missing or unknown %r of %s is reported at %s' % (k, node.identity, child.identity)
                if repr(k) not in child.errors[0]['message'] and str(k) not in child.errors[0]['message']:
                    return 'the message about %r of %s is %r' % (k, node.identity, child.errors[0]['message'])
            elif list(child.identity)[:len(here)] != here:
                return 'the failure of %r of %s is reported at %s' % (k, node.identity, child.identity)
            problem = visit(child, None if path is None or len(child.identity) > len(here) or isinstance(k, str) is False
                and node.field.type == 'map' else path + (k,) if len(child.identity) == len(here) else path)
            if problem:
                return problem

    problem = visit(e, ())
    if problem:
        return problem
    text = str(e)
    entries = re.findall(r'^\[\d\d+\] ', text, re.M)
    if len(entries) < len(lines):
        return '%d failures, %d entries in the text' % (len(lines), len(entries))
    text = ' '.join(text.split())       # the text indents
    for line in lines:
        if ' '.join(line.split()) not in text:
            return 'no entry%s' % line


def token(e):
    return e.errors[0].get('token') if e.errors and isinstance(e.errors[0], dict) else None
