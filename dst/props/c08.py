import json

from dst import case as casemod
from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import canon, enc

KINDS = ['CallbackFault', 'CallbackFault', 'ValueError', 'TypeError', 'KeyError', 'AttributeError', 'IndexError',
    'RuntimeError', 'OSError', 'ImportError', 'StopIteration', '@ValidationError', '@InvalidTypeError',
    '@UndefinedFieldError', '@FieldExcludedError', '@CannotExtractError', '@UndefinedParameterError', '@CannotFilterError']


def flatten(e):
    """Position -> failures of a report."""
    out = {}

    def structured(s, path):
        items = s.items() if isinstance(s, dict) else enumerate(s)
        for k, item in items:
            here = path + (k,)
            if item is None:
                continue
            if isinstance(item, dict) or any(not isinstance(x, dict) or 'token' not in x for x in item):
                structured(item, here)
            else:
                out[here] = item
    errors, structure = e.serialize()
    if errors:
        out[()] = errors
    if structure:
        structured(structure, ())
    return out


def poisoned(e, path, into):
    """The encoded value ``e`` with the part at ``path`` made one its preprocessor fails on."""
    if not path:
        if not into:
            return casemod.POISON
        if isinstance(e, list):
            return e + [casemod.POISON_IN]
        (tag, items), = e.items()
        return {tag: items + [[casemod.POISON_IN, 1] if tag in ('%d', '%od') else casemod.POISON_IN]}
    k = path[0]
    if isinstance(e, list):
        return [poisoned(x, path[1:], into) if n == k else x for n, x in enumerate(e)]
    (tag, items), = e.items()
    if tag == '%t':
        return {tag: poisoned(items, path, into)}
    return {tag: [[n, poisoned(x, path[1:], into)] if n == k else [n, x] for n, x in items]}


def plain(e):
    """The containers of an encoded value."""
    if isinstance(e, list):
        return [plain(x) for x in e]
    if isinstance(e, dict):
        (tag, d), = e.items()
        if tag in ('%d', '%od'):
            return dict((k if isinstance(k, str) else str(k), plain(x)) for k, x in d)
        if tag == '%t':
            return tuple(plain(x) for x in d)
    return e


def filled(case):
    """The case with the values of poisoned operations worked out."""
    tasks = []
    for ops in case['tasks']:
        tasks.append([])
        for o in ops:
            if 'good' in o:
                o = dict(o)
                try:
                    o['v'] = poisoned(o['good'], o['at'], o['into'])
                except (TypeError, ValueError, AttributeError, KeyError):
                    o['v'] = o['good']
                if o['v'] == o['good']:
                    del o['good']
            tasks[-1].append(o)
    return dict(case, tasks=tasks)


class C08(common.Check):
    """Failing and re-entrant callbacks."""

    id = 'C08'
    quick = 2200

    def generate(self, rng):
        style = choice(rng, ['poison', 'poison', 'fail', 'fail', 'fail', 'reenter', 'mixed'])
        kinds = choice(rng, [('preprocessor',), ('extractor',), ('instantiator',),
            ('preprocessor', 'extractor', 'instantiator')])
        if style == 'poison':
            kinds = ('preprocessor',)
        opt = gen.Options(refs=choice(rng, [0, 0.15]), callbacks=choice(rng, [0.2, 0.5, 0.9]), kinds=kinds,
            depth=choice(rng, [0, 1, 2, 2, 3]), defaults=0.1, extras=0.1, constants=0.03)
        if chance(rng, 0.5):
            opt.structural = ['sequence', 'tuple', 'map', 'structure', 'structure']
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 1, 2]))
        tasks, faults = [], []
        for t in range(choice(rng, [1, 1, 2, 3])):
            ops = []
            for i in range(choice(rng, [1, 2, 3, 4])):
                si = int(rng.random() * len(specs))
                o = self.call(rng, si, specs[si], kinds, style)
                if style in ('fail', 'mixed') and chance(rng, 0.7):
                    faults.append([t, i, choice(rng, [1, 1, 1, 2, 2, 3, 4, 6]), choice(rng, KINDS)])
                if style in ('reenter', 'mixed') and chance(rng, 0.6):
                    ri = int(rng.random() * len(specs))
                    inner = self.call(rng, ri, specs[ri], kinds, None)
                    places = [p for p, s in gen.walk(specs[ri])]
                    if chance(rng, 0.3):
                        path = choice(rng, places)
                        sub = dict(gen.walk(specs[ri]))[path]
                        if sub[0] not in ('ref', 'undef'):
                            inner = self.call(rng, ri, sub, kinds, None)
                            inner['path'] = [list(k) if isinstance(k, tuple) else k for k in path]
                    n = choice(rng, [1, 1, 2, 3])
                    if not any(f[:3] == [t, i, n] for f in faults):
                        faults.append([t, i, n, inner])
                ops.append(o)
            tasks.append(ops)
        final = [self.call(rng, si, spec, kinds, None) for si, spec in enumerate(specs)]
        final += [{'op': 'describe', 's': si} for si in range(len(specs))]
        return {'subs': subs, 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng), 'cbfaults': faults,
            'final': final}

    def call(self, rng, si, spec, kinds, style):
        kind = choice(rng, kinds)
        bad = choice(rng, [0, 0, 0.15])
        if style == 'poison' and chance(rng, 0.85):
            form = choice(rng, ['n', 's'])
            v = gen.value(rng, spec, form, choice(rng, [0, 0.1, 0.25]))
            found = list(gen.places(spec, v))
            able = [x for x in found if x[1][0] not in ('ref', 'undef', 'cls', 'email', 'union')
                and x[2] is not None and 'constant' not in x[1][1]]
            have = [x for x in able if 'preprocessor' in x[1][1]]
            if not have and able:
                x = choice(rng, able)
                gen.preprocess_with(x[1])
                have = [x]
            if have:
                path, s, part = choice(rng, have)
                into = s[0] in ('structure', 'map', 'sequence', 'tuple')
                if not into or isinstance(part, dict if s[0] in ('structure', 'map') else (list, tuple)):
                    return {'op': 'process', 's': si, 'good': enc(v), 'ser': form == 's', 'at': list(path), 'into': into}
        if chance(rng, 0.12):
            return {'op': 'transform', 's': si, 'how': choice(rng, ['none', 'none', 'leaves', 'integers'])}
        if kind == 'preprocessor' or chance(rng, 0.2):
            return common.convert_op(rng, si, spec, bad)
        v = gen.value(rng, spec, 'n', bad if chance(rng, 0.3) else 0)
        if kind == 'extractor':
            return {'op': 'extract', 's': si, 'v': enc(gen.carrier(rng, v))}
        return {'op': 'instantiate', 's': si, 'v': enc(v)}

    def evaluate(self, case, log=False):
        ev = common.Evaluation(case)
        case = filled(case)
        plain = dict(case, cbfaults=[f for f in case.get('cbfaults', ()) if isinstance(f[3], str)])
        b = casemod.baselines(plain)
        ev.solo_runs += len(b.ops) + len(b.final)
        res = casemod.run_together(case, None, casemod.horizon_of(b), log=log)
        ev.note(res)
        ev.res, ev.b = res, b
        ev.case = case
        fired = res.ctx.fault_log
        failing = set(k for k, v in fired.items())
        # a nested use fails or succeeds inside of the callback, the outer result is the plain one
        self.compare(case, b, res, ev)
        for tid, i, n, got in res.nested:
            action = [f[3] for f in case['cbfaults'] if f[:3] == [tid, i, n]][0]
            alone = casemod.run_alone(plain, [action], 0, [0], keepfaults=False)
            ev.solo_runs += 1
            ev.count('nested_calls')
            if alone.outcome[0] in ('ok', 'exc'):
                kind = 'ok' if alone.outcome[0] == 'ok' else 'err'
                if got != kind + ':' + alone.outcome[1]:
                    ev.add('nested:differs', task=tid, op=i, callback=n, what=action['op'],
                        **common.difference(kind + ':' + alone.outcome[1], got))
        for (tid, i), entries in fired.items():
            if tid < len(case['tasks']):
                o = case['tasks'][tid][i]
                self.contained(plain, tid, i, o, entries, res, ev)
        return ev

    def contained(self, case, tid, i, o, entries, res, ev):
        got = res.outcomes[tid][i]
        e = res.data[tid]['raw'].get(i)
        if got is None or got[0] == 'stuck':
            return
        unions = any(s[0] in ('union', 'ref') for s in [x[1] for spec in case['schemas'] for x in gen.walk(spec)])
        name, kind = entries[-1][1], entries[-1][2]
        ev.count('failing_callbacks_judged')
        if name.startswith('pre_'):
            if unions:
                return
            if not hasattr(e, 'format_errors'):
                if type(e).__name__ != kind.lstrip('@') and self.fails_anyway(case, o, e, ev):
                    return
                ev.add('preprocessor', task=tid, op=i, failed=entries, observed=common.short(got))
            elif 'good' in o:
                self.position(case, tid, i, o, e, ev)
            else:
                found = [x for errors in flatten(e).values() for x in errors]
                wanted = 'CallbackFault' if kind == 'poison' else kind.lstrip('@')
                if not any(x.get('token') == 'invalid' for x in found):
                    ev.add('preprocessor:unreported', task=tid, op=i, failed=entries, observed=common.short(got))
                elif wanted not in str(e):
                    ev.add('preprocessor:traceback', task=tid, op=i, failed=entries, observed=common.short(str(e)))
        elif name.startswith('ext_') or name == 'class_ext':
            if not unions and type(e).__name__ != 'CannotExtractError':
                ev.add('extractor', task=tid, op=i, failed=entries, observed=common.short(got))
        elif name.startswith('inst_') or name in ('class_inst', 'transform'):
            if type(e).__name__ != kind.lstrip('@') or 'callback failed' not in str(getattr(e, 'errors', e)):
                ev.add('own-exception', task=tid, op=i, failed=entries, observed=common.short(got))

    def fails_anyway(self, case, o, e, ev):
        """Whether the same exception comes from another part of the value, without the failing callback."""
        calm = dict(o, v=o['good']) if 'good' in o else o
        alone = casemod.run_alone(case, [calm], 0, [0], keepfaults=False)
        ev.solo_runs += 1
        return canon(alone.data['raw'].get(0)) == canon(e)

    def error_places(self, case, o):
        """Where the value holds what an error field accepted."""
        try:
            return [k for k, s, v in gen.places(case['schemas'][o['s']], plain(o['good'])) if s[0] == 'error']
        except Exception:
            return []

    def signature(self, violation):
        return 'error-value' if violation.key == 'others:error-value' else None

    def probe(self, sig):
        case = {'subs': [], 'schemas': [['structure', {'structure': [['a', ['integer', {}]], ['b', ['error', {}]]]}]],
            'tasks': []}
        o = {'op': 'process', 's': 0, 'ser': True, 'v': enc({'a': 'nothing', 'b': ([{'token': 'invalid', 'title': 't',
            'message': 'm'}], None)})}
        report = casemod.run_alone(case, [o], 0, [0]).data['raw'][0]
        return ('b',) in flatten(report)

    def position(self, case, tid, i, o, e, ev):
        good = dict(o, v=o['good'])
        alone = casemod.run_alone(case, [good], 0, [0], keepfaults=False)
        ev.solo_runs += 1
        path = tuple(o['at'])
        expected = {}
        if alone.outcome[0] == 'exc':
            report = alone.data['raw'][0]
            if not hasattr(report, 'format_errors'):
                return
            expected = flatten(report)
        elif alone.outcome[0] != 'ok':
            return
        got = flatten(e)
        if any(k == path[:len(k)] and len(k) < len(path) for k in expected):
            # a container around the position is reported as a whole
            return
        here = dict((k, v) for k, v in got.items() if k[:len(path)] == path)
        rest = dict((k, v) for k, v in got.items() if k[:len(path)] != path)
        wanted = dict((k, v) for k, v in expected.items() if k[:len(path)] != path)
        ev.count('positions_judged')
        if list(here) != [path] or [x.get('token') for x in here[path]] != ['invalid']:
            ev.add('position', task=tid, op=i, at=o['at'], observed=common.short(canon(here)), all=common.short(canon(got)))
        if canon(rest) != canon(wanted):
            extra = [k for k in rest if k not in wanted]
            if extra and all(k in rest and canon(rest[k]) == canon(wanted[k]) for k in wanted) \
                    and all(any(k[:len(x)] == x for x in self.error_places(case, o)) for k in extra):
                ev.add('others:error-value', task=tid, op=i, place=o['at'], observed=common.short(canon(rest)))
                return
            ev.add('others', task=tid, op=i, place=o['at'], **common.difference(canon(wanted), canon(rest)))
        root = case['schemas'][o['s']]
        where = root[1].get('name') or '(%s)' % root[0]
        kinds = dict((x, s[0]) for x, s, v in gen.places(root, plain(o['good'])))
        for n, k in enumerate(path):
            where += ('.%s' if kinds.get(path[:n]) == 'structure' else '[%s]') % k
        text = str(e)
        if 'error at %s: ' % where not in text or 'CallbackFault' not in text and '!boom!' not in text:
            ev.add('location', task=tid, op=i, wanted=where, observed=common.short(text))
