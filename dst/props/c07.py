from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import canon, enc

DEEP = ('clone', 'deepcopy', 'extend', 'replace', 'reconstruct')


class C07(common.Check):
    """Derived schemas and their origins."""

    id = 'C07'
    quick = 1400

    def generate(self, rng):
        if chance(rng, 0.2):
            return self.busy(rng)
        opt = gen.Options(callbacks=choice(rng, [0, 0.1]), depth=choice(rng, [1, 1, 1, 2]), defaults=0.2, extras=0.15,
            leaves=['integer', 'text', 'boolean', 'enumeration', 'enumeration', 'date', 'float', 'token', 'definition',
            'field', 'decimal'])
        kinds = choice(rng, [['structure'], ['structure'], ['structure', 'sequence', 'map', 'tuple', 'union', 'enumeration']])
        specs = []
        for i in range(choice(rng, [1, 1, 2])):
            kind = choice(rng, kinds)
            specs.append(gen.field(rng, kind, opt.but(poly=0.2), opt.depth if kind != 'enumeration' else 0,
                choice(rng, [None, 'root', 'origin'])))
        tasks = []
        for t in range(choice(rng, [1, 1, 2])):
            tasks.append(self.history(rng, t, specs, choice(rng, [3, 5, 8])))
        final = []
        for si, spec in enumerate(specs):
            final.extend(self.probes(rng, si, spec, []))
        return {'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng), 'final': final}

    def busy(self, rng):
        """One schema that several callers derive from and use all the time."""
        opt = gen.Options(callbacks=0, depth=1, defaults=0.1, extras=0.1, members=3, leaves=['integer', 'text', 'boolean',
            'enumeration', 'date'])
        kind = choice(rng, ['structure', 'structure', 'sequence', 'map', 'tuple', 'tuple', 'union'])
        spec = gen.field(rng, kind, opt.but(poly=0.3), choice(rng, [1, 1, 2]), choice(rng, [None, 'root']))
        number, tasks = 0, []
        for t in range(choice(rng, [2, 2, 3])):
            ops = []
            derives = t == 0 or chance(rng, 0.3)
            for i in range(choice(rng, [3, 5, 8])):
                if derives and chance(rng, 0.75):
                    how = choice(rng, ['clone', 'deepcopy', 'reconstruct', 'transform', 'transform', 'transform', 'filter'])
                    o = {'op': 'derive', 's': 0, 'slot': 'k%d' % i, 'how': how}
                    if how == 'transform':
                        o['mode'] = choice(rng, ['leaves', 'texts', 'integers', 'none', 'false'])
                    elif how == 'filter':
                        o['params'] = enc(choice(rng, common.SCREENS))
                    elif how == 'clone' and chance(rng, 0.5):
                        o['params'] = enc(choice(rng, [{'required': True}, {'name': 'renamed'}, {'notes': 'cloned'}]))
                    ops.append(o)
                else:
                    ops.append(common.use_op(rng, 0, spec, 0.1) if chance(rng, 0.7) else self.probes(rng, 0, spec, [])[0])
            for j, o in list(enumerate(ops)):
                if o['op'] == 'derive' and chance(rng, 0.3):
                    ops.extend(self.probes(rng, 'slot:' + o['slot'], spec, [j]))
            tasks.append(ops)
        return {'schemas': [spec], 'tasks': tasks, 'plan': common.plan(rng), 'final': self.probes(rng, 0, spec, [])}

    def probes(self, rng, s, spec, deps):
        form = choice(rng, ['n', 's'])
        out = [{'op': 'look', 's': s, 'deps': list(deps), 'v': enc(gen.value(rng, spec, form, choice(rng, [0, 0, 0.2]))),
            'ser': form == 's'}]
        if spec[0] == 'structure' and 'variants' not in spec[1] and chance(rng, 0.7):
            out.append({'op': 'members', 's': s, 'deps': list(deps)})
        return out

    def history(self, rng, t, specs, length):
        ops = []
        slots = {}      # name -> {'spec', 'deps', 'deep': may sub-objects be changed}
        number = [0]

        lenders = [(si, n, m) for si, s in enumerate(specs) if s[0] == 'structure' and 'variants' not in s[1]
            for n, m in s[1]['structure'] if m[0] not in ('ref', 'undef', 'cls') and 'name' not in m[1]]

        def lend(o, slot=None):
            """Some of the members come from another schema."""
            for pair in o['members']:
                if lenders and chance(rng, 0.25):
                    si, n, m = choice(rng, lenders)
                    if o['how'] in ('insert', 'setmember') and pair[0] != n:
                        continue
                    pair[1] = ['lent', {'of': si, 'member': n, 'kind': m[0], 'notes': m[1].get('notes')}]
                    if slot is not None:
                        slot['deep'] = False

        def new_members(existing):
            out = []
            for i in range(choice(rng, [1, 1, 2, 3, 4])):
                name = choice(rng, existing) if existing and chance(rng, 0.5) else choice(rng, gen.NAMES + ['new1', 'new2'])
                if name in [m[0] for m in out]:
                    continue
                number[0] += 1
                spec = gen.schema(rng, gen.Options(callbacks=0, leaves=gen.SIMPLE, depth=1, extras=0), None)
                spec[1]['notes'] = 'm%d.%d' % (t, number[0])
                if chance(rng, 0.5):
                    spec[1]['name'] = choice(rng, [name, name, 'other'])
                out.append([name, spec])
            return out
        while len(ops) < length:
            i = len(ops)
            r = rng.random()
            if not slots or r < 0.3:
                src = choice(rng, sorted(slots)) if slots and chance(rng, 0.6) else None
                si = int(rng.random() * len(specs))
                spec, deps, deep = (slots[src]['spec'], slots[src]['deps'], slots[src]['deep']) if src \
                    else (specs[si], [], False)
                o = {'op': 'derive', 's': 'slot:' + src if src else si, 'slot': 'k%d' % number[0], 'deps': list(deps)}
                number[0] += 1
                flat = spec[0] == 'structure' and 'variants' not in spec[1]
                how = o['how'] = choice(rng, ['clone', 'deepcopy', 'reconstruct', 'transform', 'filter', 'clone']
                    + (['extend', 'replace', 'extend', 'replace'] if flat else []))
                if how == 'clone' and chance(rng, 0.4):
                    o['params'] = enc(choice(rng, [{'required': True}, {'name': 'renamed'}, {'notes': 'cloned', 'flag': 2}]))
                elif how in ('extend', 'replace'):
                    o['members'] = new_members([m[0] for m in spec[1]['structure']])
                    lend(o)
                elif how == 'transform':
                    o['mode'] = choice(rng, ['leaves', 'texts', 'integers', 'none', 'false'])
                elif how == 'filter':
                    o['params'] = enc(choice(rng, common.SCREENS))
                    o['all'] = chance(rng, 0.3)
                ops.append(o)
                slots[o['slot']] = {'spec': spec, 'deps': list(deps) + [i], 'deep': how in DEEP
                    and not any(m[1][0] == 'lent' for m in o.get('members', ()))}
                if how not in DEEP and src:
                    slots[src]['deep'] = False
                continue
            name = choice(rng, sorted(slots))
            slot = slots[name]
            spec = slot['spec']
            if r < 0.65:
                o = {'op': 'change', 's': 'slot:' + name, 'deps': list(slot['deps'])}
                places = [(p, s) for p, s in gen.walk(spec)] if slot['deep'] else [((), spec)]
                structs = [(p, s) for p, s in places if s[0] == 'structure' and 'variants' not in s[1]]
                enums = [(p, s) for p, s in places if s[0] == 'enumeration'] if slot['deep'] or spec[0] == 'enumeration' else []
                how = choice(rng, ['insert', 'merge', 'remove', 'insert', 'merge', 'setattr', 'redefine', 'deepattr', 'setmember'])
                if how in ('insert', 'merge', 'remove', 'setmember') and structs:
                    path, s = structs[0] if chance(rng, 0.6) else choice(rng, structs)
                    names = [m[0] for m in s[1]['structure']]
                    if how == 'remove':
                        o['names'] = rng.sample(names, min(len(names), choice(rng, [1, 1, 2, 3])))
                        if chance(rng, 0.35):
                            o['names'].insert(int(rng.random() * (len(o['names']) + 1)), choice(rng, ['never', 'a', 'b']))
                    else:
                        o['members'] = new_members(names)
                        if how in ('insert', 'setmember'):
                            for n, m in o['members']:
                                m[1]['name'] = n
                        if how == 'insert':
                            o['overwrite'] = chance(rng, 0.5)
                        if how == 'merge':
                            o['prefer'] = chance(rng, 0.5)
                elif how == 'redefine' and enums:
                    path, s = choice(rng, enums)
                    o['values'] = enc(choice(rng, [['alpha', 'new'], ['beta'], ['gamma', 'x', 'y']]))
                    o['strategy'] = choice(rng, ['append', 'replace'])
                elif how == 'deepattr' and slot['deep']:
                    path = ()
                    o['params'] = enc(choice(rng, [{'notes': 'deep'}, {'required': True}, {'nonnull': True}, {'title': 'D'}]))
                else:
                    how, path = 'setattr', ()
                    if slot['deep'] and chance(rng, 0.5):
                        path = choice(rng, places)[0]
                    o['params'] = enc(choice(rng, [{'notes': 'set'}, {'required': True}, {'nonnull': True},
                        {'description': 'changed'}]))
                o['how'] = how
                if 'members' in o:
                    lend(o, slot)
                if path:
                    o['path'] = [list(k) if isinstance(k, tuple) else k for k in path]
                ops.append(o)
                slot['deps'] = slot['deps'] + [i]
                continue
            if r < 0.8:
                ops.append(choice(rng, self.probes(rng, 'slot:' + name, spec, slot['deps'])))
                continue
            si = int(rng.random() * len(specs))
            ops.append(common.use_op(rng, si, specs[si], 0.2))
        for name in sorted(slots):
            ops.extend(self.probes(rng, 'slot:' + name, slots[name]['spec'], slots[name]['deps']))
        return ops

    def judge(self, case, b, res, ev):
        self.compare(case, b, res, ev)
        for tid, ops in enumerate(case['tasks']):
            self.tables(case, tid, ops, res.outcomes[tid], ev)

    def tables(self, case, tid, ops, outcomes, ev):
        """Member tables against a model of insert, merge, remove, extend and replace."""
        models = {}

        def table(members):
            return dict((n, [m[1].get('kind', m[0]), n, m[1].get('notes')]) for n, m in members)

        def base(si):
            spec = case['schemas'][si]
            if spec[0] != 'structure' or 'variants' in spec[1]:
                return None
            return dict((n, [m[0], m[1].get('name') or n, m[1].get('notes')]) for n, m in spec[1]['structure'])
        for i, o in enumerate(ops):
            got = outcomes[i]
            s = o.get('s')
            model = base(s) if isinstance(s, int) else models.get(s[5:]) if s else None
            if o['op'] == 'derive':
                new = None
                if model is not None and got is not None and got[0] == 'ok':
                    how = o['how']
                    if how in ('clone', 'deepcopy', 'reconstruct'):
                        new = dict(model)
                    elif how == 'extend':
                        new = dict(model, **table(o['members']))
                    elif how == 'replace':
                        new = dict(model, **dict((k, v) for k, v in table(o['members']).items() if k in model))
                    elif how == 'transform' and o['mode'] in ('none', 'false'):
                        new = dict(model)
                models[o['slot']] = new
            elif o['op'] == 'change' and not isinstance(s, int):
                if got is None or got[0] != 'ok':
                    models[s[5:]] = None
                elif model is not None and not o.get('path'):
                    how = o['how']
                    if how == 'insert':
                        for n, v in table(o['members']).items():
                            if o.get('overwrite') or n not in model:
                                model[n] = v
                    elif how == 'merge':
                        for n, v in table(o['members']).items():
                            if o.get('prefer') or n not in model:
                                model[n] = v
                    elif how == 'remove':
                        for n in o['names']:
                            model.pop(n, None)
                    elif how == 'setmember':
                        model.update(table(o['members']))
                    elif how == 'deepattr':
                        models[s[5:]] = None
                elif model is not None and len(o['path']) == 1 and o['how'] == 'setattr':
                    models[s[5:]] = None
            elif o['op'] == 'members' and model is not None and got is not None:
                ev.count('member_tables_compared')
                if tuple(got) != ('ok', canon(model)):
                    ev.add('members', task=tid, op=i, **common.difference(canon(model), got[1] if len(got) > 1 else got))
