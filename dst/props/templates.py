"""An independent account of what interpolation yields, for templates of a simple shape.

A template is generated together with the value it stands for, given the caller's
parameters and interpolator; nothing of the library takes part in computing it.
"""
from decimal import Decimal

from dst.gen import chance, choice
from dst.vals import canon, enc, obj

WHO = {None: '', 'INTERP_A': 'A', 'INTERP_B': 'B'}
LEVEL = {'INTERP_A': 11, 'INTERP_B': 22}
NAMES = ['p', 'q', 'r']
DYNAMIC = {'fieldtype': 'structure', 'structure': {'q': {'fieldtype': 'text'}, 'deep': {'fieldtype': 'sequence',
    'item': {'fieldtype': 'text'}}, 'n': {'fieldtype': 'integer'}}}


class Undefined(Exception):
    """The template needs a parameter that is not there."""


def schema(rng, depth, top=False):
    r = rng.random()
    if depth and (top or r < 0.6):
        kind = choice(rng, ['map', 'sequence', 'tuple', 'structure', 'structure', 'variants', 'union'])
        sub = lambda: schema(rng, depth - 1)
        if kind == 'map':
            return ['map', {'value': sub()}]
        if kind == 'sequence':
            return ['sequence', {'item': sub()}]
        if kind == 'tuple':
            return ['tuple', {'values': [sub() for i in range(choice(rng, [1, 2, 3]))]}]
        if kind == 'structure':
            return ['structure', {'structure': [[n, sub()] for n in ['a', 'b', 'c'][:choice(rng, [1, 2, 3])]]}]
        if kind == 'variants':
            return ['structure', {'variants': [[i, [[n, sub()] for n in ['a', 'b'][:choice(rng, [0, 1, 2])]]]
                for i in ('one', 'two')], 'common': [['c', sub()]] if chance(rng, 0.5) else [], 'on': 'type'}]
        return ['union', {'fields': [choice(rng, [['map', {'value': sub()}], ['sequence', {'item': sub()}]]), ['text', {}]]}]
    kind = choice(rng, ['text', 'text', 'text', 'token', 'integer', 'float', 'decimal', 'enumeration', 'surrogate', 'field'])
    return [kind, {'enumeration': ['A', 'B', 'x', 'two words']} if kind == 'enumeration' else {}]


class Maker(object):
    def __init__(self, rng, parameters, interp):
        self.rng, self.parameters, self.interp = rng, parameters, interp
        self.count = 0
        self.tool = None
        if chance(rng, 0.3):
            self.tool = choice(rng, ['fn_one', 'fn_two'])
            parameters['tool'] = obj(self.tool)

    def text(self):
        """A text template and what it is rendered as."""
        rng, p = self.rng, self.parameters
        parts = []
        for i in range(choice(rng, [1, 1, 2, 3])):
            r = rng.random()
            if r < 0.45:
                n = choice(rng, NAMES + ['n'])
                parts.append((choice(rng, ['${%s}', '${ %s }', '${(%s)}']) % n, str(p.get(n, ''))))
            elif r < 0.6:
                parts.append(('${who}', WHO[self.interp]))
            elif r < 0.7 and self.interp:
                n = choice(rng, NAMES)
                if n in p:
                    name = choice(rng, ['${fn(%s)}', '${%s|up}'])
                    parts.append((name % n, ('other:' if self.interp == 'INTERP_B' else '') + p[n].upper()))
            elif r < 0.8:
                n = choice(rng, NAMES)
                if n in p:
                    parts.append(('{%% set z = %s %%}${z}' % n, p[n]))
            elif r < 0.87:
                parts.append(('{% for i in many %}${i},{% endfor %}', ''.join(x + ',' for x in p['many'])))
            elif r < 0.9:
                parts.append(('${missing}', ''))
            elif r < 0.96:
                name, absent = choice(rng, [('tool', '${tool() if tool is defined else "none"}'),
                    ('box', '${box.k if box is defined else "none"}'), ('word', '${word or "none"}')])
                present = {'tool': {'fn_one': '1', 'fn_two': '2'}.get(self.tool), 'box': self.parameters.get('box', {}).get('k'),
                    'word': self.parameters.get('word')}[name]
                parts.append((absent, 'none' if present is None else present))
            elif r < 0.98:
                parts.append(('${z}', ''))
            else:
                parts.append(('lit ', 'lit '))
        if any('set z' in a for a, b in parts) and any(a == '${z}' for a, b in parts):
            parts = [x for x in parts if x[0] != '${z}']
        return '-'.join(a for a, b in parts), '-'.join(b for a, b in parts)

    def simple(self, options):
        t, v = choice(self.rng, options)
        if v is Undefined:
            raise Undefined()
        return v if callable(v) else (lambda: v), t

    def whole(self, template):
        """The whole template comes from a parameter."""
        self.count += 1
        n = 'tree%d' % self.count
        self.parameters[n] = template
        return '${%s}' % n

    def number(self, convert):
        p, options = self.parameters, []
        options = [('${n}', p['n']), (' ${ n } ', p['n']), ('${m}', p['m']), ('${n + m}', p['n'] + p['m']), ('12', 12),
            ('${missing}', Undefined), ('${missing}', Undefined)]
        if self.interp:
            options += [('${level}', LEVEL[self.interp])] * 3
        else:
            options += [('${level}', Undefined)]
        t, v = choice(self.rng, options)
        return t, v if v is Undefined else convert(v)

    def make(self, spec):
        """(template, value); the value is Undefined where the template cannot be evaluated."""
        rng = self.rng
        kind, p = spec
        if chance(rng, 0.04):
            return None, None
        if kind in ('text', 'token'):
            return self.text()
        if kind == 'integer':
            return self.number(int)
        if kind == 'float':
            return self.number(float)
        if kind == 'decimal':
            return self.number(lambda v: Decimal(v))
        if kind == 'enumeration':
            options = [('x', 'x'), ('two words', 'two words'), ('${missing}', Undefined), ('${many[9]}', Undefined)]
            options += [('${who}', WHO[self.interp] if self.interp else Undefined)] * 3
            return choice(rng, options)
        if kind == 'field':
            options = [('plain', 'plain'), ('${missing}', Undefined), ('${n}', self.parameters['n']),
                ('x ${n}', 'x ${n}'), ('${many}', self.parameters['many'])]
            options += [('${who}', WHO[self.interp] if self.interp else Undefined)] * 3
            options += [('${%s}' % n, self.parameters.get(n, Undefined)) for n in NAMES]
            return choice(rng, options)
        if kind == 'surrogate':
            if chance(rng, 0.5):
                a, b = self.text()
                c, d = self.text()
                return ({'_': 'dstapp.Person', 'name': a, 'emails': [c]},
                    {'%is': 'Person', 'name': b, 'emails': [d], 'seen': 1})
            spec = ['structure', {'structure': [['q', ['text', {}]], ['deep', ['sequence', {'item': ['text', {}]}]],
                ['n', ['integer', {}]]]}]
            t, v = self.members(spec[1]['structure'])
            t['__schema__'] = DYNAMIC
            if chance(rng, 0.5):
                t['_'] = None
            return t, dict(v, **{'%is': 'surrogate'})
        if kind == 'map':
            keys = rng.sample(['k', 'l', 'm'], choice(rng, [0, 1, 2, 3]))
            t, v = self.members([[k, p['value']] for k in keys])
        elif kind == 'sequence':
            t, v = self.items([p['item']] * choice(rng, [0, 1, 2, 3]))
        elif kind == 'tuple':
            t, v = self.items(p['values'])
            if v is not Undefined:
                v = tuple(v)
            if chance(rng, 0.5):
                t = tuple(t)
        elif kind == 'structure':
            if 'variants' in p:
                i, members = choice(rng, p['variants'])
                t, v = self.members(list(members) + list(p['common']), 0.8)
                t['type'] = v['type'] = i
            else:
                t, v = self.members(p['structure'], 0.8)
            if chance(rng, 0.1):
                t['stranger'] = '${p}'
        elif kind == 'union':
            first = p['fields'][0]
            if chance(rng, 0.5):
                t, v = self.make(first)
                if isinstance(t, str):
                    # evaluated by the union itself
                    pass
                return t, v
            # a text evaluated as an expression is rendered as a template once more
            n = choice(rng, NAMES)
            return choice(rng, [('${%s}' % n, self.parameters.get(n, Undefined)), ('plain', 'plain'),
                ('${who}', WHO[self.interp] if self.interp else Undefined), ('${missing}', Undefined)])
        else:
            raise ValueError(kind)
        if chance(rng, 0.08):
            t = self.whole(t)
        return t, v

    def members(self, members, p=1.0):
        t, v = {}, {}
        for n, s in members:
            if chance(self.rng, p):
                t[n], value = self.make(s)
                if value is not Undefined:
                    v[n] = value
        return t, v

    def items(self, specs):
        t, v = [], []
        for s in specs:
            a, b = self.make(s)
            t.append(a)
            if b is Undefined:
                v = Undefined
            elif v is not Undefined:
                v.append(b)
        return t, v


def params(rng, tag):
    out = dict((n, '%s%s' % (tag, n)) for n in NAMES)
    out['n'] = choice(rng, [1, 2, 3, 44])
    out['m'] = choice(rng, [5, 6])
    out['many'] = [tag, tag + '2'] if chance(rng, 0.7) else []
    for n in NAMES:
        if chance(rng, 0.1):
            del out[n]
    if chance(rng, 0.3):
        out['box'] = {'k': tag + 'k'}
    if chance(rng, 0.3):
        out['word'] = tag + 'word'
    return out


def operation(rng, si, spec, tag):
    interp = choice(rng, [None, 'INTERP_A', 'INTERP_B', 'INTERP_B'])
    parameters = params(rng, tag)
    maker = Maker(rng, parameters, interp)
    if chance(rng, 0.25):
        t, v = maker.text()
        o = {'op': 'interpolate_text', 'v': t}
    else:
        t, v = maker.make(spec)
        o = {'op': 'interpolate', 's': si, 'v': enc(t)}
    o['parameters'] = enc(parameters)
    if interp:
        o['interp'] = interp
    o['wanted'] = 'undefined' if v is Undefined else canon(v)
    return o


def plain(v):
    """Surrogates as mappings; the rest as it is."""
    if isinstance(v, dict) and hasattr(type(v), 'surrogate'):
        return dict(((k, plain(x)) for k, x in v.items()), **{'%is': type(v).__name__})
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def got(raw):
    if isinstance(raw, Exception):
        return 'undefined' if type(raw).__name__ == 'UndefinedParameterError' else 'failed: %r' % raw
    return canon(plain(raw))
