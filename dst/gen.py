"""Seeded generators of schemas, values and documents.

Values are python structures that may contain vals.Raw leaves (already encoded
parts); ``vals.enc`` turns them into the JSON of a case.
"""
import base64
import datetime as dt
import decimal
import json
import random

from dst.vals import Raw, enc, obj

NAMES = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'name', 'size', 'kind_', 'total']
TEXTS = ['', 'a', 'b', 'A', '1', '1.0', '0', 'true', 'null', 'x y', ' pad ', 'line\ntwo', 'ünï',
    'alpha beta', 'aa', '-', 'None', '[1]', 'k: v', "it's", 'a,b', '{x}', '"q"', 'zz top', '\u4e2d\u6587']
INTS = [0, 1, 2, -1, 3, 7, 10, 255, 1 << 40]
FLOATS = [0.0, 1.0, -1.5, 2.25, 3.0, 1e10, 0.1]
DECIMALS = ['0', '1', '1.0', '1.50', '-2', '1E+3', '3.14', '10']
TOKENS = ['a', 'b', 'a:b', 'a.b:c-d', 'x1', 'one:two:three', 'tok_en']
UUIDS = ['00000000-0000-0000-0000-00000000000%d' % i for i in range(4)] + [
    'deadbeef-dead-beef-dead-beefdeadbeef']
EMAILS = ['a@b.com', 'A@B.com', 'x.y@example.org', ' c@d.net ', 'o\'neil@ex.co']
DATES = [dt.date(2000, 1, 1), dt.date(1999, 12, 31), dt.date(2012, 2, 29), dt.date(2024, 7, 4),
    dt.date(1970, 1, 1), dt.date(2038, 1, 20)]
TIMES = [dt.time(0, 0, 0), dt.time(23, 59, 59), dt.time(12, 30, 1), dt.time(6, 0, 0)]
DATETIMES = [dt.datetime(2000, 1, 1, 0, 0, 0), dt.datetime(2012, 2, 29, 23, 59, 59),
    dt.datetime(1999, 12, 31, 12, 0, 0), dt.datetime(2024, 7, 4, 6, 30, 15),
    dt.datetime(1970, 1, 2, 0, 0, 0), dt.datetime(2011, 6, 15, 18, 45, 0)]
BINARIES = [b'', b'a', b'\x00\xff', b'hello', b'????>>>>', bytes(range(64))]
OBJECTS = ['EQ_A', 'EQ_B', 'fn_one', 'fn_two', 'Plain', 'Holder', 'PL_A', 'PL_B', 'UN_A', 'UN_B']
OBJECT_NAMES = ['dstapp.EQ_A', 'dstapp.EQ_B', 'dstapp.fn_one', 'dstapp.fn_two', 'dstapp:Holder.inner',
    'dstapp.Holder.Nested', 'dstapp', 'dstapp.nothing', 'nomodule.x', 'dstapp:Holder.nope',
    'json.dumps', 'os.path']
CUSTOM_ERROR = [['invalid', 'custom title', 'custom %(field)s message', True, True]]

CONFUSABLE = [None, True, False, 0, 1, 0.0, 1.0, 2, '', '0', '1', '1.0', 'true', 'True', 'null', b'1',
    b'a', decimal.Decimal('1'), decimal.Decimal('0'), [], {}, (), [1], (1,), [True], {'a': 1}, {'a': True},
    dt.date(2000, 1, 1), dt.datetime(2000, 1, 1), dt.time(0, 0), 'a', obj('EQ_A'), obj('fn_one'),
    -1, 1e300, float('nan'), [[]], [None], {1: 2}, 'x' * 40, '2000-01-01', '2000-01-01T00:00:00Z']

LEAVES = ['integer', 'float', 'decimal', 'boolean', 'text', 'token', 'uuid', 'email', 'date', 'time',
    'datetime', 'binary', 'enumeration', 'object', 'definition', 'error', 'surrogate', 'field']
STRUCTURAL = ['sequence', 'tuple', 'map', 'structure', 'union']
SIMPLE = ['integer', 'float', 'boolean', 'text', 'enumeration', 'token']
JSONABLE = ['integer', 'float', 'decimal', 'boolean', 'text', 'token', 'uuid', 'email', 'date', 'time',
    'datetime', 'enumeration']


def choice(rng, seq):
    return seq[int(rng.random() * len(seq))]


def chance(rng, p):
    return rng.random() < p


class Options(object):
    leaves = LEAVES
    structural = STRUCTURAL
    callbacks = 0.12        # chance of a callback on a field
    defaults = 0.2
    constants = 0.06
    poly = 0.25
    depth = 3
    members = 4
    undefined = 0.0
    places = 1
    refs = 0.0
    extras = 0.25           # description, title, notes, aspects, custom errors
    bounds = 0.45
    kinds = ('preprocessor', 'extractor', 'instantiator')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def but(self, **kw):
        o = Options(**self.__dict__)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


# ---------------------------------------------------------------- schemas
def schema(rng, opt, depth=None, name=None, nsubs=0):
    depth = opt.depth if depth is None else depth
    if nsubs and chance(rng, opt.refs):
        return ['ref', int(rng.random() * nsubs)]
    if opt.undefined and depth < opt.depth and chance(rng, opt.undefined):
        return ['undef', int(rng.random() * opt.places)]
    if depth > 0 and opt.structural and chance(rng, 0.45 if depth < opt.depth else 0.85):
        kind = choice(rng, opt.structural)
    else:
        kind = choice(rng, opt.leaves)
    return field(rng, kind, opt, depth, name, nsubs)


def member_list(rng, opt, depth, nsubs, names=NAMES, low=1):
    n = low + int(rng.random() * opt.members)
    picked = rng.sample(names, min(n, len(names)))
    return [[m, schema(rng, opt, depth - 1, None, nsubs)] for m in picked]


def field(rng, kind, opt, depth=0, name=None, nsubs=0):
    p = {}
    if name:
        p['name'] = name
    if chance(rng, opt.extras):
        extra = rng.random()
        if extra < 0.3:
            p['description'] = 'about ' + kind
        elif extra < 0.5:
            p['title'] = 'Title'
        elif extra < 0.7:
            p['notes'] = 'n'
        elif extra < 0.85:
            p['aspects'] = enc({'flag': True, 'level': [1, 2]})
        elif kind in ('integer', 'text', 'boolean', 'date', 'float'):
            p['errors'] = CUSTOM_ERROR
    if chance(rng, 0.12):
        p['nonnull'] = True
    if chance(rng, 0.25):
        p['required'] = True
    if chance(rng, 0.08):
        p['ignore_null'] = True
    b = chance(rng, opt.bounds)
    if kind == 'integer' and b:
        p['minimum'] = choice(rng, [0, 1, -5])
        if chance(rng, 0.6):
            p['maximum'] = choice(rng, [1, 10, 300])
    elif kind == 'float' and b:
        p['minimum'] = choice(rng, [0.0, -2.0])
        if chance(rng, 0.6):
            p['maximum'] = choice(rng, [1.0, 5.5])
    elif kind == 'decimal' and b:
        p['minimum'] = enc(decimal.Decimal(choice(rng, ['0', '-5.0'])))
        if chance(rng, 0.5):
            p['maximum'] = choice(rng, ['10', '2.5'])
    elif kind == 'text':
        if b:
            p['min_length'] = choice(rng, [0, 1, 2])
            if chance(rng, 0.6):
                p['max_length'] = choice(rng, [2, 5, 30])
        if chance(rng, 0.2):
            p['pattern'] = choice(rng, ['^[a-z ]*$', '^.+$'])
        if chance(rng, 0.25):
            p['strip'] = False
        if chance(rng, 0.15):
            p['nonempty'] = True
    elif kind == 'token' and chance(rng, 0.3):
        p['segments'] = choice(rng, [1, 2])
    elif kind == 'email':
        r = rng.random()
        if r < 0.3:
            p['multiple'] = True
        elif r < 0.5:
            p['extended'] = True
        p.pop('errors', None)
    elif kind == 'date' and b:
        p['minimum'] = enc(choice(rng, [dt.date(2000, 1, 1), '1999-06-01']))
        if chance(rng, 0.5):
            p['maximum'] = '2020-01-01'
    elif kind == 'time' and b:
        p['minimum'] = enc(choice(rng, [dt.time(1, 0), '00:00:01']))
        if chance(rng, 0.5):
            p['maximum'] = '20:00:00'
    elif kind == 'datetime':
        if chance(rng, 0.6):
            p['utc'] = True
        if b:
            p['minimum'] = '2000-01-01T00:00:00Z'
            if chance(rng, 0.5):
                p['maximum'] = '2020-01-01T00:00:00Z'
    elif kind == 'binary' and b:
        p['min_length'] = 1
        if chance(rng, 0.5):
            p['max_length'] = 5
    elif kind == 'enumeration':
        r = rng.random()
        if r < 0.4:
            p['enumeration'] = ['alpha', 'beta', 'gamma']
        elif r < 0.6:
            p['enumeration'] = 'one two three'
        elif r < 0.8:
            p['enumeration'] = [1, 2, 'true', 3.0]
        else:
            p['enumeration'] = ['a', '1', True]
        if chance(rng, 0.25):
            p['ignored_values'] = choice(rng, [['skip', 'none'], 'skip alpha', ['alpha', 'one', 1, 'a'], ['a', 'one', 'skip'],
                ['alpha', 'none', True]])
    elif kind == 'definition' and chance(rng, 0.4):
        p['valid_fields'] = choice(rng, ['integer text', ['integer', 'structure']])
    elif kind == 'sequence':
        p['item'] = schema(rng, opt, depth - 1, None, nsubs)
        if chance(rng, 0.3):
            p['min_length'] = choice(rng, [0, 1, 2])
        if chance(rng, 0.3):
            p['max_length'] = choice(rng, [1, 3, 4])
        if chance(rng, 0.25) and p['item'][0] in SIMPLE + ['date', 'datetime', 'uuid', 'decimal', 'field']:
            p['unique'] = True
    elif kind == 'tuple':
        n = 1 + int(rng.random() * 3)
        p['values'] = [schema(rng, opt, depth - 1, None, nsubs) for i in range(n)]
    elif kind == 'map':
        p['value'] = schema(rng, opt, depth - 1, None, nsubs)
        r = rng.random()
        if r < 0.2:
            p['key'] = field(rng, 'integer', opt.but(callbacks=0, constants=0, defaults=0))
        elif r < 0.4:
            p['key'] = field(rng, choice(rng, ['text', 'token', 'date', 'enumeration']),
                opt.but(callbacks=0, constants=0, defaults=0))
        elif chance(rng, 0.3):
            p['required_keys'] = choice(rng, ['a b', ['a'], ['k', 'a']])
    elif kind == 'structure':
        if chance(rng, opt.poly):
            ids = choice(rng, [['dog', 'cat'], ['p', 'q', 'r'], ['alpha', 'beta']])
            p['variants'] = [[i, member_list(rng, opt, depth, nsubs,
                names=[n for n in NAMES], low=0)] for i in ids]
            if chance(rng, 0.4):
                p['common'] = member_list(rng, opt, depth, nsubs, names=['common', 'shared'])[:2]
            p['on'] = 'type' if chance(rng, 0.7) else ['enumeration',
                {'enumeration': ids, 'name': 'type', 'nonempty': True}]
            if chance(rng, 0.25):
                names = dict((i, ['type'] + [m[0] for m in mm] + [m[0] for m in p.get('common', ())
                    if m[0] not in [x[0] for x in mm]]) for i, mm in p['variants'])
                for v in names.values():
                    rng.shuffle(v)
                p['_key_order_poly'] = True
                p.pop('_key_order_poly')
        else:
            p['structure'] = member_list(rng, opt, depth, nsubs)
            if chance(rng, 0.25):
                order = [m[0] for m in p['structure']]
                rng.shuffle(order)
                p['key_order'] = order if chance(rng, 0.5) else ' '.join(order)
            if chance(rng, 0.12) and not has_undefined(['structure', p]):
                p['generate_default'] = True
        if chance(rng, 0.3):
            p['strict'] = False
    elif kind == 'union':
        first = schema(rng, opt, 0, None, nsubs)
        second = schema(rng, opt, depth - 1, None, nsubs)
        p['fields'] = [first, second]
        if chance(rng, 0.3):
            p['fields'].append(schema(rng, opt, 0))
    spec = [kind, p]
    if chance(rng, opt.callbacks):
        callback_on(rng, spec, opt)
    if kind not in ('union', 'error', 'object', 'definition', 'surrogate', 'structure') \
            and 'preprocessor' not in p and chance(rng, opt.defaults) and not has_undefined(spec):
        p['default'] = enc(value(rng, spec, 'n', 0))
        if p['default'] is None or p['default'] == '' and kind != 'text':
            p.pop('default')
    elif kind == 'structure' and 'structure' in p and 'generate_default' not in p \
            and chance(rng, opt.defaults / 2) and not has_undefined(spec):
        p['default'] = enc(value(rng, spec, 'n', 0))
    if kind in SIMPLE + ['date', 'uuid'] and chance(rng, opt.constants) and 'preprocessor' not in p:
        p['constant'] = enc(value(rng, [kind, dict((k, v) for k, v in p.items()
            if k != 'default')], 'n', 0))
        p.pop('default', None)
    return spec


def preprocess_with(spec):
    kind, p = spec
    p['preprocessor'] = {
        'text': 'pre_strip', 'integer': 'pre_number', 'float': 'pre_number', 'sequence': 'pre_list',
        'structure': 'pre_dict', 'map': 'pre_dict', 'tuple': 'pre_tuple'}.get(kind, 'pre_same')


def places(spec, v, path=()):
    """All (path, spec, value) of a value, below unions and keyed maps excepted."""
    yield path, spec, v
    if spec[0] in ('ref', 'undef', 'cls'):
        return
    kind, p = spec
    if kind == 'structure' and isinstance(v, dict):
        members = p.get('structure', ())
        if 'variants' in p:
            members = list(p.get('common', ()))
            for i, mm in p['variants']:
                if i == v.get('type'):
                    have = [m[0] for m in members]
                    members = members + [m for m in mm if m[0] not in have]
        for n, s in members:
            if n in v:
                for x in places(s, v[n], path + (n,)):
                    yield x
    elif kind == 'sequence' and isinstance(v, list) and not p.get('unique'):
        for i, item in enumerate(v):
            for x in places(p['item'], item, path + (i,)):
                yield x
    elif kind == 'tuple' and isinstance(v, (list, tuple)):
        for i, (s, item) in enumerate(zip(p['values'], v)):
            for x in places(s, item, path + (i,)):
                yield x
    elif kind == 'map' and isinstance(v, dict) and 'key' not in p:
        for k, item in v.items():
            if isinstance(k, str):
                for x in places(p['value'], item, path + (k,)):
                    yield x


def placed(v, path, new):
    """``v`` with the part at ``path`` replaced."""
    if not path:
        return new
    k = path[0]
    if isinstance(v, dict):
        return dict((n, placed(i, path[1:], new) if n == k else i) for n, i in v.items())
    items = [placed(i, path[1:], new) if n == k else i for n, i in enumerate(v)]
    return tuple(items) if isinstance(v, tuple) else items


def callback_on(rng, spec, opt):
    kind, p = spec
    which = choice(rng, opt.kinds)
    if which == 'preprocessor':
        p['preprocessor'] = {
            'text': 'pre_strip', 'integer': 'pre_number', 'float': 'pre_number', 'sequence': 'pre_list',
            'structure': 'pre_dict', 'map': 'pre_dict', 'tuple': 'pre_tuple'}.get(kind, 'pre_same')
        if kind in ('email', 'union'):
            p.pop('preprocessor')
    elif which == 'extractor':
        p['extractor'] = {'structure': 'ext_carrier', 'sequence': 'ext_list'}.get(kind,
            choice(rng, ['ext_same', 'ext_value', '@ext_same']))
        if kind == 'structure' and chance(rng, 0.3):
            p['extractor'] = 'ClassInstantiator'
    else:
        p['instantiator'] = choice(rng, ['inst_box', 'inst_same', '@inst_box', 'ClassInstantiator'])


def has_undefined(spec):
    if spec[0] in ('undef', 'ref'):
        return True
    for key, v in spec[1].items():
        if key in ('item', 'value', 'key') and isinstance(v, list):
            if has_undefined(v):
                return True
        elif key in ('values', 'fields'):
            if any(has_undefined(s) for s in v):
                return True
        elif key in ('structure', 'common'):
            if any(has_undefined(s) for n, s in v):
                return True
        elif key == 'variants':
            if any(has_undefined(s) for i, mm in v for n, s in mm):
                return True
    return False


def walk(spec, path=()):
    """All (path, spec) below and including ``spec``."""
    yield path, spec
    if spec[0] in ('undef', 'ref', 'cls'):
        return
    p = spec[1]
    if spec[0] == 'sequence':
        for x in walk(p['item'], path + ('[]',)):
            yield x
    elif spec[0] == 'map':
        for x in walk(p['value'], path + ('{}',)):
            yield x
    elif spec[0] == 'tuple':
        for i, s in enumerate(p['values']):
            for x in walk(s, path + (i,)):
                yield x
    elif spec[0] == 'union':
        for i, s in enumerate(p['fields']):
            for x in walk(s, path + (i,)):
                yield x
    elif spec[0] == 'structure':
        if 'variants' in p:
            for i, mm in p['variants']:
                for n, s in list(mm) + list(p.get('common', ())):
                    for x in walk(s, path + ((i, n),)):
                        yield x
        else:
            for n, s in p['structure']:
                for x in walk(s, path + (n,)):
                    yield x


def recursive(rng, opt, n=None):
    """Schemas which contain themselves and one another, by placeholders defined before any use."""
    n = n or choice(rng, [1, 2, 2, 3])
    schemas = []
    for i in range(n):
        members = [[m, schema(rng, opt, choice(rng, [0, 0, 1]))] for m in rng.sample(NAMES, choice(rng, [1, 1, 2, 3]))]
        targets = [j for j in range(n) if j == i + 1 or chance(rng, 0.5)]
        for j in targets or [(i + 1) % n]:
            to = ['undef', j]
            r = rng.random()
            if r < 0.25:
                to = ['sequence', {'item': to}]
            elif r < 0.4:
                to = ['map', {'value': to}]
            elif r < 0.5:
                to = ['tuple', {'values': [['integer', {}], to]}]
            members.insert(int(rng.random() * (len(members) + 1)), ['to%d' % j, to])
        schemas.append(['structure', {'structure': members}])
    PLACES[:] = schemas
    return schemas, [['schema', i] for i in range(n)]


# ---------------------------------------------------------------- values
SUBS = []       # shared field specs of the case being generated (for 'ref')
PLACES = []     # specs placeholders of the case will be defined as


def value(rng, spec, form='n', bad=0.0, depth=0):
    """A value for ``spec``; form 'n' native, 's' serialized; ``bad`` is the
    chance that a node is given something it may not accept."""
    kind = spec[0]
    if kind == 'ref':
        return value(rng, SUBS[spec[1]], form, bad, depth)
    if kind == 'undef':
        if depth > 5:
            return None
        return value(rng, PLACES[spec[1]], form, bad, depth + 1)
    p = spec[1]
    if bad and chance(rng, bad):
        r = rng.random()
        if r < 0.6:
            return choice(rng, CONFUSABLE)
        if r < 0.8:
            return None
        return value(rng, [choice(rng, SIMPLE + ['date', 'datetime']), {'enumeration': ['alpha', 'zzz']}], form, 0)
    if not bad and 'constant' in p:
        return Raw(p['constant'])
    if not p.get('nonnull') and not p.get('nonempty') and depth and chance(rng, 0.05):
        return None
    return SHAPES[kind](rng, p, form, bad, depth)


def pick_ok(rng, pool, ok):
    for i in range(12):
        v = choice(rng, pool)
        if ok(v):
            return v
    good = [v for v in pool if ok(v)]
    return choice(rng, good) if good else choice(rng, pool)


def bounded(p, v):
    lo, hi = p.get('minimum'), p.get('maximum')
    return (lo is None or v >= lo) and (hi is None or v <= hi)


def v_integer(rng, p, form, bad, depth):
    v = pick_ok(rng, INTS, lambda x: bounded(p, x))
    if form == 's' and chance(rng, 0.15):
        return choice(rng, [str(v), float(v) if v < 1000 else v])
    return v


def v_float(rng, p, form, bad, depth):
    v = pick_ok(rng, FLOATS, lambda x: bounded(p, x))
    if form == 's' and chance(rng, 0.2):
        return choice(rng, [repr(v), int(v)])
    return v


def _dec(x):
    if isinstance(x, dict):
        x = x['%dec']
    return decimal.Decimal(x) if x is not None else None


def v_decimal(rng, p, form, bad, depth):
    q = {'minimum': _dec(p.get('minimum')), 'maximum': _dec(p.get('maximum'))}
    v = pick_ok(rng, [decimal.Decimal(d) for d in DECIMALS], lambda x: bounded(q, x))
    if form == 's' and chance(rng, 0.8):
        return str(v)
    return v


def v_boolean(rng, p, form, bad, depth):
    return chance(rng, 0.5)


def v_text(rng, p, form, bad, depth):
    import re
    pat = p.get('pattern')

    def ok(x):
        if p.get('strip', True):
            x = x.strip()
        lo = p.get('min_length', 1 if p.get('nonempty') else None)
        if lo is not None and len(x) < lo:
            return False
        if p.get('max_length') is not None and len(x) > p['max_length']:
            return False
        return not pat or re.match(pat, x)
    if chance(rng, 0.04):
        return Raw({'%rep': [choice(rng, ['ab', 'x', 'é']), choice(rng, [30, 70, 300])]})
    return pick_ok(rng, TEXTS, ok)


def v_token(rng, p, form, bad, depth):
    return pick_ok(rng, TOKENS, lambda x: p.get('segments') is None or x.count(':') + 1 == p['segments'])


def v_uuid(rng, p, form, bad, depth):
    return choice(rng, UUIDS)


def v_email(rng, p, form, bad, depth):
    if p.get('multiple'):
        return choice(rng, ['a@b.com, c@d.org', 'a@b.com;x@y.net', 'a@b.com', ' A@b.com x@y.net '])
    if p.get('extended'):
        return choice(rng, ['"X Y" <a@b.com>', 'Xy <a@b.com>', 'a@b.com'])
    return choice(rng, EMAILS)


def _datebound(x, cls, fmt):
    if x is None:
        return None
    if isinstance(x, dict):
        (tag, d), = x.items()
        return dt.date(*d) if tag == '%date' else dt.time(*d)
    parsed = dt.datetime.strptime(x, fmt)
    return parsed.date() if cls is dt.date else parsed.time() if cls is dt.time else parsed


def v_date(rng, p, form, bad, depth):
    q = dict((k, _datebound(p.get(k), dt.date, '%Y-%m-%d')) for k in ('minimum', 'maximum'))
    v = pick_ok(rng, DATES, lambda x: bounded(q, x))
    return v.isoformat() if form == 's' and chance(rng, 0.85) else v


def v_time(rng, p, form, bad, depth):
    q = dict((k, _datebound(p.get(k), dt.time, '%H:%M:%S')) for k in ('minimum', 'maximum'))
    v = pick_ok(rng, TIMES, lambda x: bounded(q, x))
    return v.isoformat() if form == 's' and chance(rng, 0.85) else v


def v_datetime(rng, p, form, bad, depth):
    q = dict((k, _datebound(p.get(k), None, '%Y-%m-%dT%H:%M:%SZ')) for k in ('minimum', 'maximum'))
    v = pick_ok(rng, DATETIMES, lambda x: bounded(q, x))
    if form == 's' and chance(rng, 0.85):
        return v.strftime('%Y-%m-%dT%H:%M:%SZ')
    tz = choice(rng, [None, 'UTC', 'LOCAL', 0, 60, -300, 330, 840, -600])
    return Raw({'%dt': [v.year, v.month, v.day, v.hour, v.minute, v.second,
        choice(rng, [0, 0, 250000]), tz]})


def v_binary(rng, p, form, bad, depth):
    v = pick_ok(rng, BINARIES, lambda x: (p.get('min_length') is None or len(x) >= p['min_length'])
        and (p.get('max_length') is None or len(x) <= p['max_length']))
    return base64.urlsafe_b64encode(v) if form == 's' else v


def enum_values(p):
    e = p['enumeration']
    return e.split(' ') if isinstance(e, str) else e


def v_enumeration(rng, p, form, bad, depth):
    if p.get('ignored_values') and not p.get('nonnull') and chance(rng, 0.15):
        ig = p['ignored_values']
        return choice(rng, ig.split(' ') if isinstance(ig, str) else ig)
    return choice(rng, enum_values(p))


def v_object(rng, p, form, bad, depth):
    if form == 's':
        return choice(rng, OBJECT_NAMES[:7] if not bad else OBJECT_NAMES)
    return obj(choice(rng, OBJECTS[:4] if not bad else OBJECTS))


LEAF_SPECS = [['integer', {'minimum': 1}], ['text', {'max_length': 4, 'name': 'leaf'}], ['boolean', {}],
    ['structure', {'structure': [['i', ['integer', {'default': 4}]]]}]]


def v_definition(rng, p, form, bad, depth):
    ok = p.get('valid_fields')
    specs = LEAF_SPECS
    if ok and not bad:
        specs = [s for s in LEAF_SPECS if s[0] in ok]
    spec = choice(rng, specs)
    if form == 's':
        if spec[0] == 'structure':
            return {'fieldtype': 'structure', 'structure': {'i': {'fieldtype': 'integer', 'default': 4}}}
        d = {'fieldtype': spec[0]}
        d.update(spec[1])
        return d
    return Raw({'%field': spec})


def v_error(rng, p, form, bad, depth):
    e = ([{'token': 'invalid', 'title': 't', 'message': choice(rng, ['m1', 'm2'])}],
        choice(rng, [None, {'x': [{'token': 'q'}]}]))
    if form == 's':
        return e
    return Raw({'%err': [enc(e[0]), enc(e[1])]})


def v_surrogate(rng, p, form, bad, depth):
    version = choice(rng, [1, 2, 3])
    if form == 's':
        v = {'_': 'dstapp.Point', 'x': choice(rng, [1, 2]), 'y': 2}
        if version > 1:
            v['__version__'] = version
            v['z'] = 3
        if chance(rng, 0.2):
            v = {'_': 'dstapp.Person', 'name': 'p', 'emails': ['a']}
        if bad and chance(rng, 0.3):
            v = choice(rng, [{'_': 'dstapp.Point', 'x': 'bad', 'y': 1}, {'_': 'dstapp.Point', 'x': 1,
                '__version__': 9}, {'_': 'dstapp.Missing', 'q': 1}])
        return v
    v = {'x': choice(rng, [1, 2]), 'y': 2}
    if version > 1:
        v['labels'] = ['s']
    return Raw({'%sur': ['Point', enc(v), version]})


def opaque(rng, depth=0):
    r = rng.random()
    if r < 0.5 or depth > 2:
        return choice(rng, [1, 'a', 2.5, True, 0, 'text', None if depth else 1])
    if r < 0.75:
        return [opaque(rng, depth + 1) for i in range(int(rng.random() * 3))]
    return dict((n, opaque(rng, depth + 1)) for n in rng.sample(NAMES, int(rng.random() * 3)))


def v_field(rng, p, form, bad, depth):
    return opaque(rng, 1)


def _length(rng, p, cap=3):
    lo = p.get('min_length') or 0
    hi = p.get('max_length')
    n = lo + int(rng.random() * (cap + 1))
    return n if hi is None else min(n, hi)


def v_sequence(rng, p, form, bad, depth):
    n = _length(rng, p)
    if bad and chance(rng, bad):
        n = choice(rng, [0, 1, 6])
    elif depth == 0 and p.get('max_length') is None and chance(rng, 0.03):
        n = choice(rng, [12, 40])
    items = [value(rng, p['item'], form, bad, depth + 1) for i in range(n)]
    if p.get('unique') and not (bad and chance(rng, 0.3)):
        seen, out = [], []
        for i in items:
            k = repr(i)
            if k not in seen:
                seen.append(k)
                out.append(i)
        items = out
    if bad and chance(rng, bad / 3):
        return tuple(items)
    return items


def v_tuple(rng, p, form, bad, depth):
    items = [value(rng, s, form, bad, depth + 1) for s in p['values']]
    if bad and chance(rng, bad):
        items = items[:-1] if chance(rng, 0.5) else items + [1]
    return tuple(items) if chance(rng, 0.6) else items


def v_map(rng, p, form, bad, depth):
    n = int(rng.random() * 4)
    out = {}
    rk = p.get('required_keys')
    if rk and not (bad and chance(rng, 0.3)):
        for k in rk.split(' ') if isinstance(rk, str) else rk:
            out[k] = value(rng, p['value'], form, bad, depth + 1)
    for i in range(n):
        if p.get('key'):
            k = value(rng, p['key'], form, bad / 2, depth)
            if isinstance(k, Raw) or isinstance(k, (list, dict)) or k is None and 'nonnull' in p['key'][1]:
                continue
        else:
            k = choice(rng, ['k', 'a', 'b', 'key one', ''])
            if bad and chance(rng, bad / 2):
                k = choice(rng, [1, None, True])
        out[k] = value(rng, p['value'], form, bad, depth + 1)
    return out


def v_structure(rng, p, form, bad, depth):
    out = {}
    if 'variants' in p:
        identity, members = choice(rng, p['variants'])
        members = list(members)
        have = [m[0] for m in members]
        members = [m for m in members if m[0] not in [c[0] for c in p.get('common', ())]] + list(p.get('common', ()))
        if bad and chance(rng, bad):
            identity = choice(rng, [None, 'nope', 1, True])
        out['type'] = identity
        if bad and chance(rng, bad / 2):
            del out['type']
    else:
        members = p['structure']
    for name, spec in members:
        required = spec[0] in ('ref', 'undef') or spec[1].get('required') or spec[1].get('nonempty')
        if bad and chance(rng, bad):
            required = False
        if required or chance(rng, 0.7):
            out[name] = value(rng, spec, form, bad, depth + 1)
    if bad and chance(rng, bad) or p.get('strict') is False and chance(rng, 0.3):
        out[choice(rng, ['zz', 'extra', 'drop', 'a'])] = choice(rng, [1, 'q', None])
    if chance(rng, 0.5):
        keys = list(out)
        rng.shuffle(keys)
        out = dict((k, out[k]) for k in keys)
    return out


def v_union(rng, p, form, bad, depth):
    return value(rng, choice(rng, p['fields']), form, bad, depth)


SHAPES = dict((n[2:], f) for n, f in list(globals().items()) if n.startswith('v_'))


# ---------------------------------------------------------------- extraction subjects
def carrier(rng, v, depth=0, p=0.3):
    """``v`` in which some mappings are replaced by plain objects with attributes."""
    if isinstance(v, dict):
        items = [[k, carrier(rng, i, depth + 1, p)] for k, i in v.items()]
        if all(isinstance(k, str) and k.isidentifier() for k in v) and chance(rng, p):
            return Raw({'%carrier': [[k, enc(i)] for k, i in items]})
        return dict(items)
    if isinstance(v, list):
        return [carrier(rng, i, depth + 1, p) for i in v]
    if isinstance(v, tuple):
        return tuple(carrier(rng, i, depth + 1, p) for i in v)
    return v


# ---------------------------------------------------------------- templates
def template(rng, spec, names, depth=0):
    """A template structure for interpolation through ``spec``."""
    kind = spec[0]
    if kind == 'undef' and depth <= 5 and PLACES:
        return template(rng, PLACES[spec[1]], names, depth + 1)
    if kind in ('ref', 'undef', 'cls'):
        return None
    p = spec[1]
    if kind == 'structure':
        out = {}
        if 'variants' in p:
            identity, members = choice(rng, p['variants'])
            out['type'] = identity
            members = list(members) + list(p.get('common', ()))
        else:
            members = p['structure']
        for n, s in members:
            if chance(rng, 0.8):
                out[n] = template(rng, s, names, depth + 1)
        return out
    if kind == 'sequence':
        return [template(rng, p['item'], names, depth + 1) for i in range(int(rng.random() * 3))]
    if kind == 'tuple':
        return tuple(template(rng, s, names, depth + 1) for s in p['values'])
    if kind == 'map':
        return dict((k, template(rng, p['value'], names, depth + 1))
            for k in rng.sample(['k', 'a', 'b'], int(rng.random() * 3)))
    if kind == 'union':
        return template(rng, choice(rng, p['fields']), names, depth + 1)
    if kind == 'text' or kind == 'token' or kind == 'email':
        return choice(rng, ['${%s}' % choice(rng, names), 'pre ${%s} post' % choice(rng, names),
            '${%s|up}' % choice(rng, names), 'literal', '', '${fn(%s)}' % choice(rng, names),
            '${pair(%s, %s)}' % (choice(rng, names), choice(rng, names)), '${missing}',
            '{%% for i in many %%}${i}-${%s};{%% endfor %%}' % choice(rng, names)])
    if kind in ('integer', 'float', 'decimal'):
        return choice(rng, ['${n}', '${m}', ' ${ n } ', '12', 7, '${n + m}', '${missing}', '${twice(n)}', None])
    if kind == 'surrogate' and chance(rng, 0.7):
        return choice(rng, [{'_': 'dstapp.Person', 'name': '${%s}' % choice(rng, names),
            'emails': ['${%s}' % choice(rng, names), 'x']},
            {'_': 'dstapp.Point', 'x': '${n}', 'y': '${m}', '__version__': choice(rng, [1, 2, 3, 9])},
            {'_': 'dstapp.Person', 'name': 'literal'}, {'_': 'dstapp.Nothing', 'q': '${n}'},
            {'_': None, '__schema__': {'fieldtype': 'structure', 'structure': {'q': {'fieldtype': 'text'}}},
            'q': '${%s}' % choice(rng, names)}])
    if kind == 'enumeration' and chance(rng, 0.7):
        v = choice(rng, enum_values(p))
        return v if chance(rng, 0.4) else '${%s}' % (json.dumps(v) if v is not True else 'true')
    if chance(rng, 0.7):
        return choice(rng, ['${%s}' % choice(rng, names + ['n', 'many', 'missing']), 'plain', None])
    return None


def parameters(rng, names, tag):
    out = dict((n, '%s%s' % (tag, n)) for n in names)
    out['n'] = choice(rng, [1, 2, 3, 44])
    out['m'] = choice(rng, [5, 6, 7.5])
    out['many'] = [tag, tag + '2'] if chance(rng, 0.7) else []
    if chance(rng, 0.25):
        out['tool'] = obj(choice(rng, ['fn_one', 'fn_two']))
    if chance(rng, 0.25):
        out['box'] = {'k': tag + 'k', 'l': [tag]}
    for n in names:
        if chance(rng, 0.08):
            del out[n]
    return out


# ---------------------------------------------------------------- descriptions
PLAIN = ('name', 'description', 'title', 'notes', 'nonnull', 'required', 'ignore_null', 'minimum', 'maximum',
    'min_length', 'max_length', 'pattern', 'strip', 'nonempty', 'segments', 'utc', 'multiple', 'extended', 'unique',
    'key_order', 'generate_default')


def description(spec):
    """A field description (plain data) for ``spec``."""
    kind, p = spec
    if kind in ('ref', 'undef', 'cls'):
        return {'fieldtype': 'text'}
    out = {'fieldtype': kind}
    for k, v in p.items():
        if k in PLAIN and not isinstance(v, dict):
            out[k] = v
        elif k in ('default', 'constant') and isinstance(v, (int, str, float, list)):
            out[k] = Raw(v)
        elif k in ('enumeration', 'ignored_values', 'valid_fields', 'required_keys'):
            out[k] = list(v) if isinstance(v, list) else v
        elif k in ('item', 'value', 'key'):
            out[k] = description(v)
        elif k in ('values', 'fields'):
            out[k] = [description(s) for s in v]
        elif k == 'structure':
            out[k] = dict((n, description(s)) for n, s in v)
        elif k == 'variants':
            out['structure'] = dict((i, dict((n, description(s)) for n, s in list(mm) + list(p.get('common', ()))))
                for i, mm in v)
        elif k == 'on':
            out['polymorphic_on'] = v if isinstance(v, str) else description(v)
        elif k == 'strict' and v is False:
            out[k] = v
        elif k == 'aspects':
            out['flag'] = True
            out['level'] = [1, 2]
    return out


# ---------------------------------------------------------------- sets of schemas
def schemas(rng, opt, count, nsubs=None):
    """(subs, specs) for a case; sets SUBS for value generation."""
    nsubs = nsubs if nsubs is not None else (1 + int(rng.random() * 2) if opt.refs else 0)
    subs = [schema(rng, opt.but(refs=0.0), max(1, opt.depth - 1), choice(rng, [None, 'part'])) for i in range(nsubs)]
    SUBS[:] = subs
    specs = []
    for i in range(count):
        specs.append(schema(rng, opt, None, choice(rng, [None, None, 'root', 'schema%d' % i]), nsubs))
    return subs, specs


# ---------------------------------------------------------------- documents
FORMATS = ['json', 'yaml', 'csv', 'xml', 'structuredtext', 'urlencoded']
KEYS = {'json': ['json', '.json', 'application/json', 'class:Json'],
    'yaml': ['yaml', '.yaml', '.yml', 'application/x-yaml', 'class:Yaml'],
    'csv': ['csv', '.csv', 'application/csv', 'class:Csv'],
    'xml': ['xml', '.xml', 'application/xml', 'class:Xml'],
    'structuredtext': ['structuredtext', 'text/plain', 'class:StructuredText'],
    'urlencoded': ['urlencoded', 'application/x-www-form-urlencoded', 'class:UrlEncoded']}
TEXTS_BAD = {
    'json': ['', '{', '[1,', 'nope', '{"a":}', '"open', '{"a":1}}'],
    'yaml': ['a: b: c', '[1, 2', '{a: 1', '"open', '- a\n b: c\n- d', '\t- x'],
    'csv': ['zz,qq\r\n1,2\r\n', '', '"a"\r\n"x"', 'a,b\r\n1', '"n"\r\n"word"\r\n'],
    'xml': ['', '<root', '<root><zz>1</zz></root>', '<a></b>', 'text', '<root><n>word</n></root>'],
    'structuredtext': ['{', '{a', '[1,{]', '{a:1,b}', '}{', '[a,[b]'],
    'urlencoded': ['a={', 'a=[1', 'b={a', '%zz=1&c={x:', 'a=1&b=[[x]'],
}
TEXTS_GOOD = {
    'json': ['{"a": [1, {"b": null}], "c": "x"}', '[]', '3', '"text"', 'null', '{"tags": ["p", "q"], "n": 1.5}'],
    'yaml': ['a: 1\nb:\n  - x\n  - y: [1, 2]\n', '- 1\n- two\n- null\n', 'plain text', "k: 'it''s'", '{a: 1, b: [x]}',
        'd: 2001-01-01\n', 'text: |\n  one\n  two\n', 'a: &x [1, 2]\nb: *x\n', 'a: &o {k: v}\nb: *o\nc: [*o, *o]\n'],
    'csv': ['"a","n"\r\n"x","1"\r\n"y",""\r\n', 'a,n,f,t\r\nq,2,1.5,true\r\n', 'n\r\n4\r\n5\r\n', '"a"\r\n"l1\nl2"\r\n'],
    'xml': ['<root><n>1</n><a>x</a></root>', '<root><list><item>1</item><item>2</item></list></root>',
        '<root><map><k>a</k></map><t>true</t></root>', '<root><a null="true" /></root>', '<root><f>1.5</f></root>'],
    'structuredtext': ['{a:1,b:[x,{c:true}]}', '[1,[2,[3,[]]],{}]', 'text', 'true', '{a:{b:{c:d}}}', '[null,\\{x\\}]',
        '[[a],[b],[c],{d:[e]}]'],
    'urlencoded': ['a=1&b=%5Bx%2Cy%5D&c=%7Bk%3Av%7D', 'a=true&b=null', 'n=x+y&z=%7B%7D', 'q=%5B%5B1%5D%2C%5B2%5D%5D'],
}
XML_SPEC = ['structure', {'structure': [['n', ['integer', {}]], ['a', ['text', {}]], ['t', ['boolean', {}]],
    ['f', ['float', {}]], ['list', ['sequence', {'item': ['integer', {}]}]],
    ['map', ['map', {'value': ['text', {}]}]], ['pair', ['tuple', {'values': [['integer', {'name': 'one'}],
    ['text', {'name': 'two'}]]}]], ['sub', ['structure', {'structure': [['x', ['text', {}]],
    ['more', ['sequence', {'item': ['text', {'name': 'entry'}]}]]]}]]], 'name': 'root'}]
CSV_SPEC = ['sequence', {'item': ['structure', {'structure': [['a', ['text', {}]], ['n', ['integer', {}]],
    ['t', ['boolean', {}]], ['f', ['float', {}]], ['d', ['date', {}]], ['list', ['sequence', {'item': ['text', {}]}]]]}]}]
CSV_PATH = ['structure', {'structure': [['rows', CSV_SPEC], ['total', ['integer', {}]]]}]


def heavy(rng, tag):
    """Texts that take a renderer some time: long, of several lines, full of marks."""
    kind = choice(rng, ['long', 'lines', 'marks'])
    if kind == 'long':
        return [('%s word ' % tag) * n for n in (14, 20, 40)] + ['%s-%d ' % (tag, i) * 30 for i in range(2)] + [tag]
    if kind == 'lines':
        return ['two\nlines ' + tag, ' lead\n  deep ' + tag, '%s\n\n%s\n' % (tag, tag), '\n'.join([tag] * 6), tag]
    return ['[%s]' % tag, '{%s}' % tag, tag + ',' + tag, 'k:' + tag, '"%s"' % tag, "it's " + tag, '&%s;<>' % tag, tag + '=%20+']


def content(rng, tag, depth=0, leaves=None):
    r = rng.random()
    if r < 0.45 and depth or depth > 3:
        return choice(rng, leaves or [tag, 1, True, None, 2.5, '', tag + ' text', 0, False, '1', 1.0, 'true', 'null',
            'a: b', "it's", '-x', '[%s]' % tag, '{%s}' % tag, 'two\nlines ' + tag, ('%s word ' % tag) * 14,
            ' lead\n  deep ' + tag, 'x #y', '100', tag + ',' + tag, 'k:v'])
    if r < 0.75:
        return dict((choice(rng, ['a', 'b', 'c', 'key', tag]), content(rng, tag, depth + 1, leaves))
            for i in range(int(rng.random() * 4)))
    return [content(rng, tag, depth + 1, leaves) for i in range(int(rng.random() * 4))]


def xml_content(rng, tag):
    v = {}
    if chance(rng, 0.7): v['n'] = choice(rng, [1, 2, 30])
    if chance(rng, 0.7): v['a'] = choice(rng, [tag, tag + ' <&> é', None, 'x'])
    if chance(rng, 0.5): v['t'] = chance(rng, 0.5)
    if chance(rng, 0.4): v['f'] = choice(rng, [1.5, 0.0])
    if chance(rng, 0.5): v['list'] = [1, 2, 3][:int(rng.random() * 4)]
    if chance(rng, 0.5): v['map'] = dict((k, tag + k) for k in rng.sample(['k', 'l', 'm'], int(rng.random() * 3)))
    if chance(rng, 0.3): v['pair'] = (1, tag)
    if chance(rng, 0.4): v['sub'] = {'x': tag, 'more': [tag, 'y'][:int(rng.random() * 3)]}
    return v


def csv_content(rng, tag):
    rows = []
    for i in range(int(rng.random() * 5)):
        row = {}
        if chance(rng, 0.8): row['a'] = choice(rng, [tag, tag + str(i), 'q"uote', 'c,omma', 'two\nlines', None, ''])
        if chance(rng, 0.8): row['n'] = choice(rng, [1, 2, 3, 0, None])
        if chance(rng, 0.4): row['t'] = chance(rng, 0.5)
        if chance(rng, 0.4): row['f'] = choice(rng, [1.5, 2.0])
        if chance(rng, 0.3): row['d'] = '2001-02-03'
        rows.append(row)
    return rows


def codec_op(rng, schemas, tag, bad=0.2, formats=None, leaves=None, encode=0.55):
    """An encoding or decoding; ``schemas`` maps 'xml', 'csv', 'path' to schema indexes."""
    fmt = choice(rng, formats or FORMATS)
    key = choice(rng, KEYS[fmt])
    params = {}
    if chance(rng, encode):
        s = None
        if leaves is not None:
            leaves = [x.replace('@', tag) if isinstance(x, str) else x for x in leaves]
        if fmt == 'csv':
            v, s = csv_content(rng, tag), schemas['csv']
            if chance(rng, 0.25):
                v, s = {'rows': v, 'total': 1}, schemas['path']
                params['path'] = 'rows' if not chance(rng, 0.2) else 'none'
            if chance(rng, 0.4):
                params['columns'] = choice(rng, ['n,a', 'a', ['t', 'a', 'f'], 'zz,a', ['zz', 'n', 'list', 'a'],
                    ['d', 'a', 'a'], ['list'], []])
        elif fmt == 'xml':
            v, s = xml_content(rng, tag), schemas['xml']
            if chance(rng, 0.3):
                params['preamble'] = False
        elif fmt == 'urlencoded':
            v = dict((k, content(rng, tag, 1, leaves)) for k in rng.sample(['a', 'b', 'c', tag], int(rng.random() * 4)))
        else:
            v = content(rng, tag, 0, leaves)
        if chance(rng, bad):
            v = choice(rng, [{'a': obj('PL_A')}, [tag, {'x': [1, obj('PL_B')]}], {'a': tag, 'zz': {'n': obj('PL_A')}},
                {'list': 5, 'n': 1, 'a': tag}, [{'a': tag}, 7], 'word', {'map': {'k': 1, 2: 'x'}}, {1: 'x', 'a': tag},
                [{'n': tag}, {'a': 1}, None]])
        o = {'op': 'format_serialize', 'fmt': key, 'v': enc(v)}
        if s is not None:
            o['s'] = s
    else:
        v = choice(rng, TEXTS_BAD[fmt] if chance(rng, bad) else TEXTS_GOOD[fmt])
        o = {'op': 'format_unserialize', 'fmt': key, 'v': v}
        if fmt in ('csv', 'xml'):
            o['s'] = schemas[fmt]
        if fmt == 'structuredtext' and chance(rng, 0.4):
            params['parse_numbers'] = True
    if params:
        o['params'] = enc(params)
    return fmt, o


# ---------------------------------------------------------------- look-alikes
def lookalike(rng, e, depth=0):
    """An encoded value that is easily mistaken for ``e``: equal, or equal looking."""
    r = rng.random()
    if isinstance(e, bool):
        return choice(rng, [int(e), float(e), str(e).lower(), str(int(e)), e])
    if isinstance(e, int):
        pool = [float(e) if abs(e) < 1 << 50 else e, {'%dec': str(e)}, str(e), e]
        if e in (0, 1):
            pool += [bool(e), bool(e)]
        return choice(rng, pool)
    if isinstance(e, float):
        if e != e or e in (float('inf'), -float('inf')):
            return e
        return choice(rng, [int(e) if e == int(e) else e, {'%dec': repr(e)}, repr(e), bool(e) if e in (0, 1) else e,
            -e if e == 0 else e])
    if isinstance(e, str):
        pool = [e + ' ', ' ' + e, e.upper(), e.lower(), {'%b': e.encode('utf-8').hex()}, e]
        if e.lstrip('-').isdigit():
            pool += [int(e), float(e)]
        if e.endswith('Z'):
            pool += [e[:-1]]
        return choice(rng, pool)
    if isinstance(e, list):
        if r < 0.25:
            return {'%t': [lookalike(rng, i, depth + 1) if chance(rng, 0.5) else i for i in e]}
        return [lookalike(rng, i, depth + 1) if chance(rng, 0.6) else i for i in e]
    if isinstance(e, dict):
        (tag, d), = e.items()
        if tag == '%t':
            items = [lookalike(rng, i, depth + 1) if chance(rng, 0.6) else i for i in d]
            return items if r < 0.25 else {'%t': items}
        if tag in ('%d', '%od'):
            pairs = [[lookalike(rng, k, depth + 1) if not isinstance(k, str) and chance(rng, 0.3) else k,
                lookalike(rng, v, depth + 1) if chance(rng, 0.6) else v] for k, v in d]
            if r < 0.3:
                rng.shuffle(pairs)
            return {choice(rng, ['%d', '%d', '%d', '%od']): pairs}
        if tag == '%b':
            try:
                return bytes.fromhex(d).decode('ascii')
            except ValueError:
                return e
        if tag == '%dec':
            n = decimal.Decimal(d)
            if not n.is_finite() or abs(n) > 1e9:
                return e
            return choice(rng, [int(n) if n == int(n) else float(n), {'%dec': str(n.normalize())}, str(n), e,
                {'%dec': d + ('000' if '.' in d else '.000')} if 'E' not in d else e, {'%dec': d + '0' if '.' in d and 'E' not in d else d},
                {'%dec': '%E' % n}, {'%dec': '-0' if n == 0 else d}])
        if tag == '%dt':
            tz = choice(rng, [None, 'UTC', 'LOCAL', 0, 60, -300, 330, 840, -600])
            if isinstance(d[7], int) and isinstance(tz, int):
                # the same instant elsewhere
                v = dt.datetime(*d[:7]) + dt.timedelta(minutes=tz - d[7])
                return {'%dt': [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, tz]}
            return {'%dt': d[:7] + [tz]}
        if tag == '%date':
            return choice(rng, [e, {'%dt': d + [0, 0, 0, 0, None]}])
        if tag == '%obj' and d in ('EQ_A', 'EQ_B', 'EQ_C'):
            return {'%obj': choice(rng, ['EQ_A', 'EQ_B', 'EQ_C'])}
        if tag == '%carrier':
            return {tag: [[k, lookalike(rng, v, depth + 1)] for k, v in d]}
    return e


MORE = {'decimal': ['1.12345', '-1.5000', '123456.789', '0.0', '100000', '1E+5'], 'float': [0.0, 1.0, 123456.789, 100.0],
    'text': ['Alpha', 'straße', 'e\u0301', '\u00e9', 'a' * 40, '1', 'true', ' x ', 'x'], 'integer': [1, 0, 100000, 1 << 60, -1],
    'token': ['a', 'A', 'a:b', 'a.b'], 'uuid': ['deadbeef-dead-beef-dead-beefdeadbeef', 'DEADBEEF-DEAD-BEEF-DEAD-BEEFDEADBEEF'],
    'email': ['a@b.com', 'A@B.COM', 'a@b.com,c@d.org', 'a@b.com; c@d.org'], 'field': [[1, [2]], [True, [2]], {'a': 1}, {'a': True}, 'x', 1, 1.0]}


def cluster(rng, spec, size=8, form='n'):
    """Encoded values for ``spec`` that are easily mistaken for one another."""
    pool = []
    for i in range(choice(rng, [1, 1, 2])):
        base = None
        if spec[0] in MORE and chance(rng, 0.6):
            base = choice(rng, MORE[spec[0]])
            base = enc(decimal.Decimal(base)) if spec[0] == 'decimal' else enc(base)
        else:
            base = enc(value(rng, spec, choice(rng, ['n', 's']), 0.05 if chance(rng, 0.3) else 0))
        pool.append(base)
    while len(pool) < size:
        e = lookalike(rng, choice(rng, pool))
        if spec[0] == 'sequence' and isinstance(e, list) and chance(rng, 0.3):
            # a part of it, more of it, in another order, something that cannot be told apart by hashing
            how = choice(rng, ['part', 'twice', 'order', 'unhashable'])
            e = list(e)
            if how == 'part':
                e = e[:int(rng.random() * (len(e) + 1))]
            elif how == 'twice':
                e = e + e[:1]
            elif how == 'order':
                rng.shuffle(e)
            else:
                e.insert(int(rng.random() * (len(e) + 1)), choice(rng, [[], {'%d': []}, [1]]))
        pool.append(e)
    return pool


# ---------------------------------------------------------------- elements and surrogates
def doc_wire(rng, tag):
    v = {}
    if chance(rng, 0.6): v['id'] = tag
    if chance(rng, 0.7): v['name'] = choice(rng, [tag, tag + ' n'])
    if chance(rng, 0.5): v['tags'] = [tag, 'u'][:int(rng.random() * 3)]
    if chance(rng, 0.4): v['opts'] = {tag: 1, 'k': 2}
    if chance(rng, 0.4): v['meta'] = choice(rng, [{}, {'level': 1}, {'notes': [tag]}, {'level': 2, 'notes': []}])
    if chance(rng, 0.4): v['pair'] = [1, tag]
    if chance(rng, 0.3): v['count'] = 3
    if chance(rng, 0.3): v['when'] = '2001-02-03'
    return v


def item_wire(rng, tag):
    v = {'title': tag}
    if chance(rng, 0.4): v['values'] = [4, 5, 6][:int(rng.random() * 4)]
    if chance(rng, 0.4): v['raw'] = choice(rng, [{'deep': [tag]}, [tag, [1]], tag])
    return v


def animal_wire(rng, tag):
    kind = choice(rng, ['dog', 'cat', 'fish'])
    v = {'kind': kind, 'name': tag}
    if chance(rng, 0.4): v['marks'] = [tag]
    if kind == 'dog' and chance(rng, 0.5): v['tricks'] = [tag, 'roll']
    if kind == 'cat':
        if chance(rng, 0.4): v['lives'] = 3
        if chance(rng, 0.4): v['toys'] = {tag: 2}
    return v


def shelf_wire(rng, tag):
    v = {}
    if chance(rng, 0.7): v['items'] = [item_wire(rng, tag + str(i)) for i in range(int(rng.random() * 3))]
    if chance(rng, 0.6): v['best'] = item_wire(rng, tag + 'best')
    if chance(rng, 0.6): v['byname'] = dict((k, doc_wire(rng, tag + k)) for k in ['k1', 'k2'][:int(rng.random() * 3)])
    if chance(rng, 0.6): v['entries'] = dict((tag + k, entry_wire(rng, tag + k)) for k in ['e1', 'e2'][:int(rng.random() * 3)])
    return v


def zoo_wire(rng, tag):
    kind = choice(rng, ['dog', 'wolf'])
    v = {'kind': kind}
    if chance(rng, 0.5):
        v.update({'age': 4} if kind == 'dog' else {'pack': [tag]})
    return v


def zoodoc_wire(rng, tag):
    v = {}
    if chance(rng, 0.5): v['id'] = 3
    if chance(rng, 0.5): v['body'] = [tag]
    return v


WIRES = {'Zoo.Animal': zoo_wire, 'Zoo.Doc': zoodoc_wire, 'Doc': doc_wire, 'Item': item_wire, 'Animal': animal_wire, 'Shelf': shelf_wire}


def entry_wire(rng, tag):
    v = {'n': 1} if chance(rng, 0.6) else {}
    if chance(rng, 0.4): v['marks'] = [tag]
    return v


WIRES['Entry'] = entry_wire


def element_op(rng, tag, bad=0.1):
    """Creating an element, or sending one through its serialized form."""
    cls = choice(rng, ['Doc', 'Doc', 'Item', 'Animal', 'Animal', 'Shelf', 'Tagged', 'Zoo.Animal', 'Zoo.Doc', 'Entry'])
    how = choice(rng, ['new', 'unserialize', 'unserialize', 'instantiate', 'roundtrip'])
    if cls == 'Tagged':
        v = choice(rng, [[], [tag], [tag, 'x']])
        if how == 'new':
            v = choice(rng, [{}, {'labels': v}])
    else:
        v = WIRES[cls](rng, tag)
        if how == 'new':
            if cls == 'Animal':
                cls = {'dog': 'Dog', 'cat': 'Cat'}.get(v['kind'], 'Animal')
            if cls == 'Zoo.Animal':
                cls = {'dog': 'ZooDog', 'wolf': 'ZooWolf'}[v['kind']]
            v = dict((k, x) for k, x in v.items() if chance(rng, 0.6) or k == 'kind')
    if chance(rng, bad):
        v = choice(rng, [{'kind': 'dragon', 'name': tag}, {'count': 'many'}, {'title': None, 'values': ['x']}, 5, {'kind': 'dog'},
            {'items': [{}]}, {'tags': 'x'}]) if how != 'new' else v
    o = {'op': 'element_op', 'cls': cls, 'how': how, 'v': enc(v)}
    if how in ('unserialize', 'roundtrip') and chance(rng, 0.4):
        import json
        o['fmt'] = choice(rng, ['json', 'yaml'])
        if how == 'unserialize' or how == 'roundtrip':
            o['v'] = json.dumps(v)
    elif how == 'instantiate':
        if cls in ('Doc', 'Entry') and chance(rng, 0.5):
            o['key'] = 'key ' + tag
    return o


def point_wire(rng, tag, n):
    v = {'x': int(rng.random() * 9), 'y': n}
    if chance(rng, 0.5): v['z'] = 4
    if chance(rng, 0.5): v['labels'] = [tag, 'l'][:int(rng.random() * 3)]
    return v


def surrogate_op(rng, tag, nschemas=0, bad=0.1):
    """Creating a surrogate, or sending one through its serialized form."""
    how = choice(rng, ['construct', 'construct', 'unserialize', 'unserialize', 'acquire', 'roundtrip', 'roundtrip', 'interpolate'])
    kind = choice(rng, ['Point', 'Point', 'Point', 'Person', 'Loose', 'late', 'dynamic', 'dynamic', 'marked'])
    version = choice(rng, [None, 1, 2, 3])
    o = {'op': 'surrogate_op', 'how': how}
    if kind == 'marked':
        where = choice(rng, ['', '', 'Marker.'])
        v = {'inner' if where else 'outer': choice(rng, [1, 2])}
        if how in ('construct', 'roundtrip', 'acquire') or where:
            o.update(impl=where + 'Marked', v=enc(v), how='construct' if how in ('acquire', 'interpolate', 'unserialize') else how)
            return o
        o['v'] = enc(dict(v, _='dstapp.Marked'))
        o['how'] = 'unserialize'
        return o
    if kind == 'Person':
        v = {'name': tag}
        if chance(rng, 0.5): v['emails'] = [tag + '@b.com']
        version = choice(rng, [None, 1])
    elif kind == 'late':
        v = {'a': 1}
        if chance(rng, 0.5): v['b'] = tag
        version = choice(rng, [None, 1, 2])
    elif kind in ('Loose', 'dynamic'):
        v = {'i': 1, 't': tag} if kind == 'dynamic' else {'any': [tag, {'deep': tag}], 'n': 1}
        version = None
    else:
        v = point_wire(rng, tag, 1)
        if version == 1:
            v.pop('z', None)
            v.pop('labels', None)
    if how == 'acquire':
        if kind == 'dynamic':
            kind = 'Point'
        o['params'] = enc(v)
        o['impl'] = {'late': '@dstapp_late.LatePoint'}.get(kind, choice(rng, [kind, '@dstapp.' + kind]))
        if version:
            o['version'] = version
        return o
    if how in ('construct', 'roundtrip'):
        o['v'] = enc(v)
        if kind == 'dynamic':
            o['impl'] = None
            o['schema'] = 0
        else:
            o['impl'] = {'late': '@dstapp_late.LatePoint'}.get(kind, choice(rng, [kind, '@dstapp.' + kind]))
            if version:
                o['version'] = version
        if chance(rng, 0.2):
            o['params'] = enc({choice(rng, ['x', 'name', 'i', 'extra']): choice(rng, [1, tag])})
        return o
    v = dict(v)
    if kind == 'dynamic':
        v['__schema__'] = {'fieldtype': 'structure', 'structure': {'i': {'fieldtype': 'integer'},
            't': {'fieldtype': 'text', 'default': 'dt'}}}
    else:
        v['_'] = {'late': 'dstapp_late.LatePoint'}.get(kind, 'dstapp.' + kind)
        if version and version > 1:
            v['__version__'] = version
    if chance(rng, bad):
        v['__version__'] = choice(rng, [0, 7, 'x'])
    elif chance(rng, bad):
        v['_'] = choice(rng, ['dstapp.Nothing', 'nomodule.Thing', 'dstapp_extra.LatePoint'])
    o['v'] = enc(v)
    if how == 'interpolate':
        o['v'] = enc(dict((k, '${p}' if isinstance(x, str) and k in ('t', 'name', 'b') else x) for k, x in v.items()))
        o['parameters'] = enc({'p': 'p ' + tag, 'q': 2})
    return o


DYNAMIC_SPEC = ['structure', {'structure': [['i', ['integer', {'required': True}]], ['t', ['text', {'default': 'dt'}]],
    ['s', ['sequence', {'item': ['text', {}], 'default': ['ds']}]]]}]
