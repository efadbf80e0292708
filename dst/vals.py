"""Values in cases: a JSON encoding, decoding, and a canonical form.

Cases are JSON documents, so every value an operation is given is written with
tags.  ``canon`` turns any result into a string that says everything a caller
can observe about it (types, structure, text) and nothing else.
"""
import datetime as _dt
import decimal as _decimal
import math
import re
from collections import OrderedDict

from dst import hooks

TZ_CACHE = {}
ADDRESS = re.compile(r'[ +]at[ +]0x[0-9a-f]+')


def fixed_tz(minutes):
    tz = TZ_CACHE.get(minutes)
    if tz is None:
        tz = TZ_CACHE[minutes] = _dt.timezone(_dt.timedelta(minutes=minutes))
    return tz


# ---------------------------------------------------------------- encoding
def enc(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    t = type(v)
    if t is int:
        return v
    if t is float:
        if math.isnan(v) or math.isinf(v):
            return {'%f': repr(v)}
        return v
    if t is list:
        return [enc(i) for i in v]
    if t is tuple:
        return {'%t': [enc(i) for i in v]}
    if t is OrderedDict:
        return {'%od': [[enc(k), enc(i)] for k, i in v.items()]}
    if t is dict:
        return {'%d': [[enc(k), enc(i)] for k, i in v.items()]}
    if t is bytes:
        return {'%b': v.hex()}
    if t is _dt.datetime:
        if v.tzinfo is None:
            tz = None
        else:
            tz = int(v.utcoffset().total_seconds() // 60)
        return {'%dt': [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, tz]}
    if t is _dt.date:
        return {'%date': [v.year, v.month, v.day]}
    if t is _dt.time:
        return {'%time': [v.hour, v.minute, v.second, v.microsecond]}
    if t is _decimal.Decimal:
        return {'%dec': str(v)}
    if t is Raw:
        return v.data
    raise TypeError('cannot encode %r' % (v,))


class Raw(object):
    """An already encoded value inside a python structure."""

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return 'Raw(%r)' % (self.data,)


def obj(name):
    return Raw({'%obj': name})


def dec(e, world=None, ctx=None):
    if type(e) is list:
        return [dec(i, world, ctx) for i in e]
    if type(e) is not dict:
        return e
    (tag, d), = e.items()
    if tag == '%d':
        return dict((dec(k, world, ctx), dec(v, world, ctx)) for k, v in d)
    if tag == '%od':
        return OrderedDict((dec(k, world, ctx), dec(v, world, ctx)) for k, v in d)
    if tag == '%t':
        return tuple(dec(i, world, ctx) for i in d)
    if tag == '%set':
        return set(dec(i, world, ctx) for i in d)
    if tag == '%b':
        return bytes.fromhex(d)
    if tag == '%f':
        return float(d)
    if tag == '%dt':
        tz = d[7]
        if tz == 'UTC':
            tz = world.scheme.UTC
        elif tz == 'LOCAL':
            tz = world.scheme.LOCAL
        elif tz is not None:
            tz = fixed_tz(tz)
        return _dt.datetime(*d[:7], tzinfo=tz)
    if tag == '%date':
        return _dt.date(*d)
    if tag == '%time':
        return _dt.time(*d)
    if tag == '%dec':
        return _decimal.Decimal(d)
    if tag == '%obj':
        target = world.app
        for attr in d.split('.'):
            target = getattr(target, attr)
        return target
    if tag == '%mod':
        return __import__(d, None, None, ['x'])
    if tag == '%field':
        from dst import build
        return build.build(d, world, ctx)
    if tag == '%sur':
        name, value, version = d
        impl = dec({'%obj': name}, world) if name else world.scheme.surrogate
        return impl(dec(value, world, ctx), version=version)
    if tag == '%dsur':
        value, spec = d
        from dst import build
        return world.scheme.surrogate(dec(value, world, ctx), build.build(spec, world, ctx))
    if tag == '%inst':
        name, value = d
        cls = dec({'%obj': name}, world)
        return cls(**dec(value, world, ctx))
    if tag == '%err':
        errors, structure = d
        return world.scheme.ValidationError(*dec(errors, world, ctx),
            structure=dec(structure, world, ctx))
    if tag == '%carrier':
        o = world.app.Carrier()
        for k, v in d:
            setattr(o, k, dec(v, world, ctx))
        return o
    if tag == '%nest':      # a long chain, written compactly: [kind, depth, leaf]
        kind, depth, leaf = d
        v = dec(leaf, world, ctx)
        for i in range(depth):
            v = [v] if kind == 'l' else {kind: v}
        return v
    if tag == '%rep':       # repeated text: [text, count]
        return d[0] * d[1]
    raise ValueError('unknown tag %r' % tag)


# ---------------------------------------------------------------- canonical form
def canon(v, depth=0):
    t = type(v)
    if v is None or t is bool or t is int:
        return repr(v)
    if t is str:
        return repr(v) if 'at' not in v or '0x' not in v else ADDRESS.sub('', repr(v))
    if t is float:
        return 'f:' + repr(v)
    if depth > 60:
        return '...'
    d = depth + 1
    if t is list:
        return '[' + ', '.join(canon(i, d) for i in v) + ']'
    if t is tuple:
        return 'T(' + ', '.join(canon(i, d) for i in v) + ')'
    if t is dict:
        return '{' + ', '.join(sorted('%s: %s' % (canon(k, d), canon(i, d))
            for k, i in v.items())) + '}'
    if t is OrderedDict:
        return 'OD{' + ', '.join('%s: %s' % (canon(k, d), canon(i, d)) for k, i in v.items()) + '}'
    if t is bytes:
        return 'b:' + v.hex()
    if t is _dt.datetime:
        return 'dt:' + '%s|%s' % (v.replace(tzinfo=None).isoformat(), canon_tz(v.tzinfo))
    if t is _dt.date or t is _dt.time:
        return t.__name__ + ':' + v.isoformat()
    if t is _decimal.Decimal:
        return 'dec:' + str(v)
    if isinstance(v, (set, frozenset)):
        return 'set{' + ', '.join(sorted(canon(i, d) for i in v)) + '}'
    if isinstance(v, type):
        return 'class:%s.%s' % (v.__module__, v.__qualname__)
    if isinstance(v, BaseException):
        return canon_error(v, d)
    name = t.__name__
    module = t.__module__
    if module.startswith('scheme'):
        if hasattr(v, 'describe') and hasattr(v, 'process'):
            return canon_field(v)
        if isinstance(v, dict):
            return canon_surrogate(v, d)
        if name == 'Undefined':
            return 'Undefined'
        if 'imezone' in name:
            return canon_tz(v)
    if isinstance(v, dict) and hasattr(v, 'surrogate'):
        return canon_surrogate(v, d)
    if module.startswith('dstapp'):
        if isinstance(v, BaseException):
            return canon_error(v, d)
        if callable(v) and hasattr(v, '__name__'):
            return 'fn:' + v.__module__ + '.' + v.__name__
        token = getattr(v, 'dst_token', None)
        if token is not None:
            return 'obj:%s:%s' % (name, token)
        content = dict(v.__dict__)
        key = getattr(t, 'key_attr', None)
        if key and key not in content and hasattr(v, key):
            content['key ' + key] = getattr(v, key)
        return 'inst:%s%s' % (t.__qualname__, canon(content, d))
    if hasattr(v, '__name__'):
        return 'named:%s.%s' % (getattr(v, '__module__', ''), v.__name__)
    if isinstance(v, (list, tuple, dict, str, int, float)):
        return '%s<%s>' % (name, ADDRESS.sub('', repr(v)))
    return 'other:%s.%s:%s' % (module, name, ADDRESS.sub('', repr(v)))


def snapshot(v, depth=0):
    """As canon, and the order in which mappings were filled."""
    t = type(v)
    if depth > 60:
        return '...'
    d = depth + 1
    if t is list:
        return '[' + ', '.join([snapshot(i, d) for i in v]) + ']'
    if t is tuple:
        return 'T(' + ', '.join([snapshot(i, d) for i in v]) + ')'
    if t is dict:
        return '{' + ', '.join(['%s: %s' % (canon(k, d), snapshot(i, d)) for k, i in v.items()]) + '}'
    if t.__module__.startswith('dstapp') and t.__name__ == 'Carrier':
        return 'carrier' + snapshot(v.__dict__, d)
    return canon(v, d)


def canon_tz(tz):
    if tz is None:
        return 'naive'
    if type(tz) is _dt.timezone:
        return 'fixed:' + str(tz.utcoffset(None))
    return ADDRESS.sub('', repr(tz))


def canon_surrogate(v, d=0):
    schema = v.schema
    text = 'sur:%s.%s:%s:%s' % (type(v).__module__, type(v).__qualname__, v.version, canon(dict(v), d))
    if schema is not None:
        text += ':' + canon_field(schema)
    return text


UNORDERED = [False]     # whether canon leaves out what is written in the order of mappings


def canon_field(f):
    text = 'field:' + (type(f).__name__ if UNORDERED[0] else ADDRESS.sub('', repr(f)))
    try:
        text += '|' + canon(f.describe())
    except Exception as e:
        text += '|!' if UNORDERED[0] else '|!%s' % type(e).__name__
    return text


def strip_traceback(text):
    """Removes frame lines; keeps the exception lines of captured tracebacks."""
    if 'File "' not in text:
        return text
    out, skip = [], False
    for line in text.split('\n'):
        s = line.lstrip()
        if s.startswith('File "') and ', line ' in s:
            skip = True
            continue
        if skip:
            skip = False
            continue
        out.append(line)
    return '\n'.join(out)


def canon_error(e, d=0):
    t = type(e)
    if hasattr(e, 'format_errors') and hasattr(e, 'serialize'):
        try:
            serialized = canon(e.serialize(), d)
        except Exception as exc:
            serialized = '!%s:%s' % (type(exc).__name__, exc)
        try:
            text = ADDRESS.sub('', strip_traceback(str(e)))
            if UNORDERED[0]:
                text = '\n'.join(sorted(t.partition(' ')[2] for t in text.split('\n') if t.startswith('[')))
        except Exception as exc:
            text = '!%s:%s' % (type(exc).__name__, exc)
        return 'verr:%s:%s:%s' % (t.__name__, serialized, text)
    if UNORDERED[0]:
        return 'exc:'       # which of several failures comes first may depend on the order
    if isinstance(e, OSError):
        return 'oserr:%s:%s' % (t.__name__, e.errno)
    return 'exc:%s:%s' % (t.__name__, ADDRESS.sub('', strip_traceback(str(e)))[:400])
