import itertools
import json

from dst import case as casemod
from dst import gen, ops
from dst.gen import chance, choice
from dst.props import common
from dst.vals import enc

TYPES = ['integer', 'text', 'boolean', 'float', 'date', 'decimal', 'uuid', 'surrogate', 'object', 'field', 'nothing', 'Text',
    'email', 'token']
REFERENCES = ['dstapp.EQ_A', 'dstapp.EQ_B', 'dstapp:EQ_B', 'dstapp_late.LatePoint', 'dstapp_late.Late', 'dstapp_late.Late.Inner',
    'dstapp_late:Late.Inner.leaf', 'dstapp_late.VALUE', 'dstapp_late', 'dstapp_extra', 'dstapp_extra.LatePoint', 'dstapp_extra.LINK',
    'dstapp_extra.late_function', 'dstapp_late.late_function', 'dstapp:Holder.inner', 'dstapp.Holder.Nested', 'dstapp_pack',
    'dstapp_pack.sub', 'dstapp_pack.sub.THING', 'dstapp_pack.sub.Common', 'dstapp_pack.Common', 'dstapp_pack.Common.where',
    'dstapp_pack.sub.Common.Deep.Deeper', 'dstapp_pack:NAME', 'dstapp_pack.sub:Common.where', 'dstapp_pack.other.LINKS',
    'dstapp_pack.other', 'dstapp_pack.other.sub_function', 'dstapp_pack.missing', 'dstapp_pack.sub.missing', 'dstapp.nothing',
    'nomodule', 'nomodule.attr', 'dstapp:nothing', 'json.dumps', 'os.path', 'json', '', 'a..b', 'dstapp.Marked', 'dstapp.Marker.Marked']
OBJECTS = [{'%obj': n} for n in ('EQ_A', 'EQ_B', 'EQ_C', 'fn_one', 'fn_two', 'PL_A', 'PL_B', 'Plain', 'Holder', 'Holder.Nested', 'UN_A',
    'UN_B', 'Point', 'Marked', 'Marker.Marked', 'INTERP_A', 'INTERP_B', 'Holder.inner', 'fn_named', 'fn_twin', 'fn_hidden', 'LAMBDA', 'PLAIN_NAMED')] + [
    {'%inst': [n, {'%d': [['token', 'tmp']]}]} for n in ('Equal', 'Unhashable', 'Plain')] + [{'%mod': 'dstapp'}, 'text', 5, None, [1]]
TOKENS = {'dstapp.Point': {'x': 1, 'y': 2}, 'dstapp_late.LatePoint': {'a': 1}, 'dstapp_extra.LatePoint': {'other': 3},
    'dstapp_extra.ExtraPoint': {'e': 1}, 'dstapp_pack.sub.PackPoint': {'p': 1}, 'dstapp.Loose': {'any': [1]}, 'dstapp.Marked': {'outer': 4},
    'dstapp.Marker.Marked': {'inner': 5}, 'dstapp.nothing': {'k': 1}, 'nomodule.Thing': {'k': 2}, 'dstapp.Person': {'name': 'n'}}
KEYS = ['json', '.json', 'application/json', 'yaml', '.yml', 'class:Json', 'class:Yaml', 'xml', '.txt', 'csv', 'nothing', '.nope', 'text/csv',
    'application/x-www-form-urlencoded']
EXTENSIONS = ['.json', '.yaml', '.yml', '.JSON', '.nope', '', '.txt', '.Yml']
LATE = ['dstapp_late', 'dstapp_extra', 'dstapp_pack', 'dstapp_pack.sub', 'dstapp_pack.other']
TROUBLE = ['ImportError', 'NotFound', 'OSError', 'SyntaxError']


class C16(common.Check):
    """Resolution of names."""

    id = 'C16'
    quick = 1600

    def generate(self, rng):
        self.rng = rng
        news = self.registrations(rng)
        tasks = []
        # which names a case is about: few, so that resolutions meet
        self.names = [choice(rng, REFERENCES) for i in range(choice(rng, [2, 3, 5, 8]))]
        self.tokens = [choice(rng, sorted(TOKENS)) for i in range(choice(rng, [2, 3, 4]))]
        self.types = [choice(rng, TYPES) for i in range(3)]
        self.keys = [choice(rng, KEYS) for i in range(4)]
        self.objects = [choice(rng, OBJECTS) for i in range(choice(rng, [2, 4]))]
        focus = choice(rng, [None, None, 'reference', 'object', 'surrogate', 'type', 'format'])
        for t in range(choice(rng, [1, 2, 2, 3, 4])):
            todo = []
            for i in range(choice(rng, [2, 3, 4, 6, 8])):
                kind = focus if focus and chance(rng, 0.6) else choice(rng, ['reference', 'reference', 'object', 'surrogate',
                    'surrogate', 'type', 'format'])
                todo.append(self.resolution(rng, kind, news, todo))
            tasks.append(todo)
        for r in news:
            if chance(rng, 0.85):
                todo = choice(rng, tasks)
                at = int(rng.random() * (len(todo) + 1))
                todo.insert(at, r)
                for o in todo:
                    if o.get('of', -1) >= at:
                        o['of'] += 1
        final = [r for r in news if not any(r is o for todo in tasks for o in todo)]
        seen = set()
        for o in [o for todo in tasks for o in todo]:
            key = json.dumps(o, sort_keys=True)
            if o['op'] not in ('register', 'import_again', 'identify_raw', 'back_of', 'churn') and key not in seen:
                seen.add(key)
                if chance(rng, 0.5) and len(final) < 8:
                    final.append(o)
        for i in range(3):
            final.append(self.resolution(rng, choice(rng, ['reference', 'object', 'surrogate', 'type', 'format']), news, []))
        for r in news:
            final.append(self.about(rng, r))
        case = {'subs': [], 'schemas': [['object', {}], ['map', {'value': ['object', {}]}], ['sequence', {'item': ['surrogate', {}]}]],
            'tasks': tasks, 'final': final, 'plan': common.plan(rng),
            'env': {'fs': {'files': [], 'faults': []}}, 'ids': True}
        if chance(rng, 0.7):
            case['importfaults'] = [[name, [choice(rng, TROUBLE + ['ok']) for i in range(choice(rng, [1, 1, 2, 3]))]]
                for name in LATE if chance(rng, 0.6)]
        return case

    def registrations(self, rng):
        news = []
        for i in range(choice(rng, [0, 1, 1, 2, 3])):
            what = choice(rng, ['field', 'field', 'format', 'surrogate'])
            o = {'op': 'register', 'what': what, 'tag': 'g%d' % i}
            if what == 'field':
                o['base'] = choice(rng, ['Text', 'Integer', 'Float', 'Field'])
                o['name'] = 'Custom%d' % i
                if chance(rng, 0.25):
                    # takes the place of an existing type
                    free = [n for n in ('Text', 'Boolean', 'Email', 'Date', 'Token') if n not in [r['name'] for r in news]]
                    o['name'] = choice(rng, free)
                o['touch'] = [o['name'].lower()]
            elif what == 'format':
                o.update(name='Fmt%d' % i, key='fmt%d' % i, extensions=['.f%d' % i, 'f%d' % i], mimetype='text/x-fmt%d' % i)
                if chance(rng, 0.25) and not any('.nope' in r.get('touch', ()) for r in news):
                    o['extensions'] = ['.nope', '.f%d' % i]
                elif chance(rng, 0.15) and not any('yaml' in r.get('touch', ()) for r in news):
                    o.update(key='yaml', mimetype='application/x-yaml', extensions=['.yaml', '.yml'])
                o['touch'] = ['reg:' + o['name'], o['key'], o['mimetype']] + [e for e in o['extensions'] if e[0] == '.']
            else:
                o['name'] = 'NewPoint%d' % i
                o['touch'] = ['dstapp.' + o['name']]
            news.append(o)
        return news

    def about(self, rng, r):
        """A resolution of a name that is registered."""
        if r['what'] == 'field':
            return self.use_type(rng, r['name'].lower())
        if r['what'] == 'format':
            return self.use_format(rng, choice(rng, r['touch']))
        return self.use_token(rng, 'dstapp.' + r['name'], {'n' + r['tag']: 3})

    def resolution(self, rng, kind, news, todo):
        if news and chance(rng, 0.3):
            r = choice(rng, news)
            if r['what'] == 'surrogate' and chance(rng, 0.3):
                return {'op': 'import_name', 'name': 'dstapp.' + r['name'], 'touch': r['touch']}
            return self.about(rng, r)
        if kind == 'reference':
            earlier = [i for i, o in enumerate(todo) if o['op'] == 'import_name' and 'touch' not in o]
            if earlier and chance(rng, 0.4):
                i = choice(rng, earlier)
                if chance(rng, 0.6):
                    return {'op': 'import_again', 'name': todo[i]['name'], 'of': i}
                return {'op': 'identify_raw', 'of': i}
            name = choice(rng, self.names)
            if chance(rng, 0.6):
                return {'op': 'import_name', 'name': name}
            if chance(rng, 0.5):
                return {'op': 'unserialize', 's': 0, 'v': name}
            return {'op': 'unserialize', 's': 1, 'v': {'%d': [['k%d' % k, choice(rng, self.names)] for k in range(3)]}}
        if kind == 'object':
            earlier = [i for i, o in enumerate(todo) if o['op'] == 'identify']
            if earlier and chance(rng, 0.3):
                i = choice(rng, earlier)
                return {'op': 'back_of', 'of': i, 'v': todo[i]['v']}
            if chance(rng, 0.04):
                return {'op': 'churn', 'n': choice(rng, [2, 3]), 'kind': choice(rng, ['Plain', 'Equal'])}
            v = choice(rng, self.objects)
            if chance(rng, 0.4):
                return {'op': 'identify', 'v': v}
            if chance(rng, 0.5):
                return {'op': 'identify_back', 'v': v}
            if chance(rng, 0.5):
                return {'op': 'serialize', 's': 0, 'v': v}
            return {'op': 'serialize', 's': 1, 'v': {'%d': [['k%d' % k, choice(rng, self.objects)] for k in range(3)]}}
        if kind == 'surrogate':
            token = choice(rng, self.tokens)
            return self.use_token(rng, token, TOKENS[token])
        if kind == 'type':
            return self.use_type(rng, choice(rng, self.types))
        return self.use_format(rng, choice(rng, self.keys))

    def use_type(self, rng, name):
        r = rng.random()
        o = {'op': 'use_type', 'type': name, 'v': choice(rng, [None, 'x', 3, '2000-01-01', True]), 'touch': [name]}
        if r < 0.3:
            o['how'] = 'params'
        if chance(rng, 0.4):
            p = choice(rng, [{'name': 'n'}, {'required': True}, {'nonnull': True}, {'instantiator': 'dstapp_pack.sub.sub_function'},
                {'extractor': 'dstapp_late.late_function'}])
            o['params'] = enc(p)
        elif chance(rng, 0.3):
            spec = {'%d': [['fieldtype', name], ['name', 'n']]}
            return {'op': 'unserialize', 's': '@DEF', 'v': choice(rng, [spec,
                {'%d': [['fieldtype', 'sequence'], ['item', spec]]},
                {'%d': [['fieldtype', 'structure'], ['structure', {'%d': [['a', spec], ['b', {'%d': [['fieldtype', 'integer']]}]]}]]}]),
                'touch': [name]}
        return o

    def use_format(self, rng, key):
        how = choice(rng, ['lookup', 'lookup', 'serialize', 'unserialize', 'field', 'path', 'path', 'named'])
        o = {'op': 'use_format', 'fmt': key, 'how': how, 'touch': [key]}
        if how in ('path', 'named'):
            o['ext'] = key if key.startswith('.') and chance(rng, 0.8) else choice(rng, EXTENSIONS)
            if how == 'path':
                o['touch'] = [o['ext'].lower()]
                o['fmt'] = 'json'
        return o

    def use_token(self, rng, token, v):
        r = rng.random()
        wire = dict(v, _=token)
        if chance(rng, 0.15):
            wire['__version__'] = choice(rng, [1, 2])
        o = {'op': 'surrogate_op', 'how': 'unserialize', 'v': enc(wire)}
        if r < 0.25:
            o = {'op': 'surrogate_op', 'how': choice(rng, ['construct', 'roundtrip']), 'impl': '@' + token, 'v': enc(v)}
        elif r < 0.35:
            o['how'] = 'interpolate'
            o['parameters'] = {'%d': []}
        elif r < 0.6:
            o = {'op': 'unserialize', 's': '@SUR', 'v': enc(wire)}
        elif r < 0.75:
            other = choice(rng, self.tokens)
            o = {'op': 'unserialize', 's': 2, 'v': [enc(wire), enc(dict(TOKENS[other], _=other))]}
            if token in TOKENS:
                # not one whose class may appear between the two
                o['v'].append(enc(wire))
        o['touch'] = [token]
        return o

    # -- references
    def refer(self, case, o, names, hits, b):
        """The outcome of ``o`` after the registrations ``names``, meeting the import failures ``hits``."""
        key = json.dumps([o, names, hits], sort_keys=True)
        if key not in b:
            news = [r for r in self.news(case) if r['name'] in names]
            faults = {}
            for name, kind in hits:
                faults.setdefault(name, []).append(kind)
            program = news + [o]

            def prepare(world):
                casemod.inject(world, {'importfaults': sorted(faults.items())})
            b[key] = casemod.run_alone(case, program, 0, list(range(len(program))), prepare=prepare)
            self.solo += 1
        return b[key]

    def news(self, case):
        return [o for todo in case['tasks'] + [case['final']] for o in todo if o['op'] == 'register']

    def evaluate(self, case, log=False):
        ev = common.Evaluation(case)
        b, limits, total = {}, {}, 0
        self.solo = 0
        every = [r['name'] for r in self.news(case)]
        rows = list(enumerate(case['tasks'])) + [(len(case['tasks']), case['final'])]
        for tid, todo in rows:
            for i, o in enumerate(todo):
                steps = 400
                if 'of' not in o and o['op'] not in ('register', 'churn'):
                    steps = self.refer(case, o, self.touched(case, o), [], b).steps
                limits[(tid, i)] = steps * 30 + 20000
                total += steps
        res = casemod.run_together(case, limits, max(10, total), log=log)
        ev.note(res)
        ev.res = res
        lives = {}
        for tid, todo in enumerate(case['tasks']):
            for i, o in enumerate(todo):
                if o['op'] == 'register' and i in res.data[tid]['begun']:
                    lives[o['name']] = (res.data[tid]['begun'][i], res.data[tid]['ended'].get(i, 1 << 60))
        for i, o in enumerate(case['final']):
            if o['op'] == 'register':
                lives[o['name']] = (res.final_data['begun'][i], res.final_data['ended'][i])
        for tid, todo in rows:
            final = tid == len(case['tasks'])
            got = res.final if final else res.outcomes[tid]
            data = res.final_data if final else res.data[tid]
            for i, o in enumerate(todo):
                self.judge_resolution(case, b, ev, 'final' if final else tid, i, o, got[i], data,
                    [] if final else res.hits.get((tid, i), []), lives)
        ev.solo_runs += self.solo
        return ev

    def touched(self, case, o):
        return [r['name'] for r in self.news(case) if set(r['touch']) & set(o.get('touch', ()))]

    def judge_resolution(self, case, b, ev, tid, i, o, got, data, hits, lives):
        if got is None:
            got = ('none',)
        if got[0] == 'missing':
            return
        failing = [h for h in hits if h[1] != 'ok']
        if failing:
            ev.count('resolutions_meeting_import_failures')
        if o['op'] == 'register':
            allowed = [('ok', "'registered'")]
        elif o['op'] == 'churn':
            allowed = [('ok', '[' + ', '.join(['T(True, True)'] * o['n']) + ']')]
        elif o['op'] in ('import_again', 'back_of'):
            allowed = [('ok', 'True'), ('ok', "'no reference'")]
            if failing or o['op'] == 'import_again' and self.fails(case, o, b):
                allowed.append(('exc', got[-1]))
        elif o['op'] == 'identify_raw':
            # what has a reference, that denotes it
            if got[0] == 'ok' and not (got[1] == "'no object'" or got[1].endswith(', True)')) or got[0] not in ('ok', 'exc') \
                    or got[0] == 'exc' and not got[1].startswith('exc:TypeError:'):
                ev.add('reference:denotes-another', task=tid, op=i, what=o['op'], reported=common.short(got))
            return
        else:
            begun, ended = data['begun'][i], data['ended'].get(i, 1 << 60)
            never = (1 << 60, 1 << 60)
            related = self.touched(case, o)
            done = [n for n in related if lives.get(n, never)[1] < begun]
            unsure = [n for n in related if n not in done and lives.get(n, never)[0] < ended]
            allowed = []
            for k in range(len(unsure) + 1):
                for more in itertools.combinations(unsure, k):
                    allowed.append(tuple(self.refer(case, o, [n for n in related if n in done or n in more], hits, b).outcome))
            if any(kind == 'NotFound' for name, kind in hits) and len(case['tasks']) > 1:
                # tried again under a shorter name, after another caller may have loaded it
                if isinstance(o.get('v'), (dict, list)):
                    return
                allowed.append(tuple(self.refer(case, o, done, [], b).outcome))
            if unsure and o['op'] == 'use_format' and o['how'] in ('path', 'named', 'field'):
                return              # resolves twice, perhaps before and after
            if unsure:
                ev.count('resolutions_during_registration')
        if o['op'] in ('identify_back', 'back_of', 'import_again') and got[0] == 'ok' and not got[1].endswith(
                ('True', 'True)', "'no reference'")):
            ev.add('reference:denotes-another', task=tid, op=i, what=o['op'], reported=common.short(got))
        if tuple(got) not in allowed:
            key = ('failed-import:' if failing else 'final:' if tid == 'final' else '') + 'differs'
            ev.add(key, task=tid, op=i, what=o['op'], kind=[allowed[0][0], got[0]], failures=hits,
                **common.difference(allowed[0][-1], got[-1]))

    def fails(self, case, o, b):
        return self.refer(case, {'op': 'import_name', 'name': o['name']}, [], [], b).outcome[0] == 'exc'
