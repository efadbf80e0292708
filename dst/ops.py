"""The operations simulated callers perform.

Every operation is a function ``op(ctx, task, o)`` returning the thunk that
calls the library; preparing arguments and reading results happens outside of
the simulated time of the call.
"""
import gc
import weakref

from dst import sched
from dst.vals import canon, canon_field, dec

OPS = {}


def operation(fn):
    OPS[fn.__name__.rstrip('_')] = fn
    return fn


def params_of(ctx, o, name='params'):
    value = o.get(name)
    if value is None:
        return {}
    p = dec(value, ctx.world, ctx)
    run = sched.CURRENT[0]
    if o.get('watch') and run is not None and run.cur is not None:
        run.cur.data['inputs'].append(p)
    return p


@operation
def nop(ctx, task, o):
    return lambda: None


# -- conversions
@operation
def process(ctx, task, o):
    f, v = ctx.target(task, o), ctx.value(task, o)
    kw = {}
    if o.get('partial'):
        kw['partial'] = True
    return lambda: f.process(v, o.get('phase', 'inbound'), o.get('ser', False), **kw)


@operation
def serialize(ctx, task, o):
    f, v, p = ctx.target(task, o), ctx.value(task, o), params_of(ctx, o)
    return lambda: f.serialize(v, o.get('fmt'), **p)


@operation
def unserialize(ctx, task, o):
    f, v, p = ctx.target(task, o), ctx.value(task, o), params_of(ctx, o)
    return lambda: f.unserialize(v, o.get('fmt'), **p)


@operation
def roundtrip(ctx, task, o):
    f, v = ctx.target(task, o), ctx.value(task, o)
    fmt = o.get('fmt')
    return lambda: f.unserialize(f.serialize(v, fmt), fmt)


@operation
def format_serialize(ctx, task, o):
    v, p = ctx.value(task, o), params_of(ctx, o)
    f = ctx.target(task, o) if 's' in o else None
    F = ctx.world.scheme.Format
    key = ctx.format_key(o)
    return lambda: F.serialize(v, key, f, **p)


@operation
def format_unserialize(ctx, task, o):
    v, p = ctx.value(task, o), params_of(ctx, o)
    f = ctx.target(task, o) if 's' in o else None
    F = ctx.world.scheme.Format
    key = ctx.format_key(o)
    return lambda: F.unserialize(v, key, f, **p)


@operation
def interpolate(ctx, task, o):
    f, v = ctx.target(task, o), ctx.value(task, o)
    parameters = ctx.value(task, o, 'parameters')
    interp = ctx.interpolator(o)
    return lambda: f.interpolate(v, parameters, interp)


@operation
def interpolate_text(ctx, task, o):
    v = ctx.value(task, o)
    parameters = ctx.value(task, o, 'parameters')
    interp = ctx.interpolator(o)
    fn = ctx.world.mod('scheme.interpolation').interpolate_parameters
    return lambda: fn(v, parameters, o.get('simple', False), interp)


@operation
def extract(ctx, task, o):
    f, v, p = ctx.target(task, o), ctx.value(task, o), params_of(ctx, o)
    return lambda: f.extract(v, o.get('strict', True), **p)


@operation
def instantiate(ctx, task, o):
    f, v = ctx.target(task, o), ctx.value(task, o)
    if 'key' in o:
        return lambda: f.instantiate(v, o['key'])
    return lambda: f.instantiate(v)


# -- questions about a schema
@operation
def describe(ctx, task, o):
    f = ctx.target(task, o)
    p = params_of(ctx, o, 'parameters') if o.get('parameters') is not None else None
    return lambda: f.describe(p, o.get('verbose', False))


@operation
def reconstruct(ctx, task, o):
    v = ctx.value(task, o)
    F = ctx.world.scheme.Field
    return lambda: F.reconstruct(v)


@operation
def redescribe(ctx, task, o):
    f = ctx.target(task, o)
    F = ctx.world.scheme.Field
    return lambda: F.reconstruct(f.describe())


@operation
def clone(ctx, task, o):
    f, p = ctx.target(task, o), params_of(ctx, o)
    return lambda: f.clone(**p)


@operation
def repr_(ctx, task, o):
    f = ctx.target(task, o)
    return lambda: repr(f)


@operation
def filter_(ctx, task, o):
    f, p = ctx.target(task, o), params_of(ctx, o)
    return lambda: f.filter(o.get('all', False), **p)


@operation
def screen(ctx, task, o):
    f, p = ctx.target(task, o), params_of(ctx, o)
    return lambda: f.screen(**p)


@operation
def get(ctx, task, o):
    f = ctx.target(task, o)
    return lambda: f.get(o['key'], 'nothing')


@operation
def defaults(ctx, task, o):
    f = ctx.target(task, o)
    return lambda: f.generate_defaults(o.get('identity'), o.get('sparse', True))


@operation
def visit(ctx, task, o):
    F = ctx.world.scheme.Field
    f = ctx.target(task, o) if 's' in o else None
    v = ctx.value(task, o) if f is None else None

    def callback(spec):
        inner = F.visit(spec, callback)
        return (spec['fieldtype'], spec.get('name'), inner)
    return lambda: callback(v if f is None else f.describe())


def transformer(ctx, o):
    """Transformers named by what they do; they are application callbacks too."""
    scheme, mode = ctx.world.scheme, o.get('how', 'none')
    from dst.hooks import callback

    def fn(field):
        callback('transform')
        if mode == 'none':
            return None
        if mode == 'false':
            return False if field.structural else None
        if mode == 'integers' and field.type == 'integer':
            return field.clone(required=True)
        if mode == 'texts' and field.type == 'text':
            return scheme.Text(name=field.name, title='transformed')
        if mode == 'leaves' and not field.structural:
            return field.clone(notes='t')
        return None
    return fn


@operation
def transform(ctx, task, o):
    f, fn = ctx.target(task, o), transformer(ctx, o)
    return lambda: f.transform(fn)


# -- reports
@operation
def render(ctx, task, o):
    """The report an earlier failing operation of this caller received, read now."""
    e = task.data['raw'].get(o['of'])
    return lambda: e if isinstance(e, Exception) else 'no report'


@operation
def report_back(ctx, task, o):
    """The report sent in serialized form and read at the other end."""
    e = task.data['raw'].get(o['of'])
    if not isinstance(e, ctx.world.scheme.StructuralError):
        return lambda: 'no report'

    def call():
        wire = e.serialize()
        back = type(e).unserialize(wire)
        return (back.serialize()[0], back.errors == (wire[0] or []), back.structure is wire[1] or back.structure == wire[1])
    return call


@operation
def annotate(ctx, task, o):
    e = task.data['raw'].get(o['of'])
    how = o['how']
    if not hasattr(e, 'format_errors'):
        return lambda: 'no report'
    other = task.data['raw'].get(o.get('with'))
    scheme = ctx.world.scheme

    def call():
        if how == 'append':
            e.append({'token': 'invalid', 'title': 'noted', 'message': o['text']})
        elif how == 'text':
            e.append(o['text'])
        elif how == 'merge':
            e.merge(other if hasattr(other, 'errors') else scheme.ValidationError(
                {'token': 'invalid', 'title': 'other', 'message': o['text']}))
        elif how == 'attach':
            e.attach({'x': scheme.ValidationError({'token': 'invalid', 'title': 'a', 'message': o['text']})})
        elif how == 'capture':
            try:
                raise ValueError(o['text'])
            except ValueError:
                e.capture()
        elif how == 'collect':
            # a report of the caller's own, empty so far
            own = scheme.ValidationError() if o.get('plain') else type(e)()
            for x in (e, other, e):
                if hasattr(x, 'errors'):
                    own.merge(x)
            own.append({'token': 'invalid', 'title': 'own', 'message': o['text']})
            return own.serialize()
        elif how == 'wrap':
            own = scheme.StructuralError()
            own.attach({'one': e, 'two': other if hasattr(other, 'errors') else e})
            own.serialize()
            own.structure['three'] = scheme.ValidationError({'token': 'invalid', 'title': 'own', 'message': o['text']})
            return own.serialize(True)
        elif how == 'edit':
            for entry in e.errors:
                if isinstance(entry, dict):
                    entry['message'] = o['text']
            structure = e.structure
            if isinstance(structure, dict):
                structure.clear()
            elif isinstance(structure, list):
                del structure[:]
        elif how == 'deep':
            stack = [e]
            while stack:
                x = stack.pop()
                if hasattr(x, 'errors'):
                    x.append({'token': 'invalid', 'title': 'deep', 'message': o['text']})
                    s = x.structure
                    stack.extend(s.values() if isinstance(s, dict) else s or ())
        return 'done'
    return call


@operation
def spoil(ctx, task, o):
    """The caller changes in place what an earlier operation returned to it."""
    v = task.data['raw'].get(o['of'])
    return lambda: spoil_value(v)


def spoil_value(v, depth=0):
    if depth > 12:
        return
    if isinstance(v, dict):
        for item in list(v.values()):
            spoil_value(item, depth + 1)
        v['__spoiled__'] = True
        for key in list(v)[:1]:
            v.pop(key)
    elif isinstance(v, list):
        for item in v:
            spoil_value(item, depth + 1)
        v.append('__spoiled__')
        if len(v) > 1:
            v.reverse()
    elif isinstance(v, tuple):
        for item in v:
            spoil_value(item, depth + 1)
    elif type(v).__module__.startswith('dstapp') and hasattr(v, '__dict__') and not hasattr(v, 'dst_token'):
        for name, item in list(v.__dict__.items()):
            spoil_value(item, depth + 1)
            if item is None or isinstance(item, (str, int)):
                setattr(v, name, 'spoiled')


@operation
def change_arg(ctx, task, o):
    """The caller changes its own argument object in place, then goes on using it."""
    v = ctx.args[o['arg']]
    new = dec(o['to'], ctx.world, ctx)

    def call():
        if isinstance(v, list):
            v[:] = new
        else:
            v.clear()
            v.update(new)
    return call


# -- changing schemas (of the caller's own)
@operation
def derive(ctx, task, o):
    f = ctx.target(task, o)
    how, scheme = o['how'], ctx.world.scheme
    if how in ('extend', 'replace'):
        members = ctx.members(task, o)

    def call():
        if how == 'clone':
            r = f.clone(**params_of(ctx, o))
        elif how == 'deepcopy':
            from copy import deepcopy
            r = deepcopy(f)
        elif how == 'extend':
            r = f.extend(members)
        elif how == 'replace':
            r = f.replace(members)
        elif how == 'transform':
            r = f.transform(transformer(ctx, {'how': o.get('mode', 'leaves')}))
        elif how == 'filter':
            r = f.filter(o.get('all', False), **params_of(ctx, o))
        elif how == 'reconstruct':
            r = scheme.Field.reconstruct(f.describe())
        elif how == 'build':
            from dst.build import build
            r = build(o['spec'], ctx.world, ctx)
        else:
            raise ValueError(how)
        # with nothing to change these hand back the origin itself
        task.data['slots'][o['slot']] = f.clone() if r is f or r is None else r
        return r
    return call


@operation
def members(ctx, task, o):
    """What the member table of a structure says."""
    f = ctx.target(task, o)
    return lambda: dict((name, [m.type, m.name, m.notes]) for name, m in f.structure.items())


@operation
def look(ctx, task, o):
    """How a schema prints, describes itself and processes a value."""
    f, v = ctx.target(task, o), ctx.value(task, o)

    def call():
        try:
            r = f.process(v, o.get('phase', 'inbound'), o.get('ser', False))
        except Exception as e:
            r = e
        return (f, r)
    return call


@operation
def change(ctx, task, o):
    f = ctx.target(task, o)
    how = o['how']
    if how in ('insert', 'merge', 'setmember'):
        members = ctx.members(task, o)

    def call():
        if how == 'insert':
            for name in members:
                f.insert(members[name], o.get('overwrite', False))
        elif how == 'merge':
            f.merge(members, o.get('prefer', False))
        elif how == 'remove':
            f.remove(*o['names'])
        elif how == 'setattr':
            for name, value in params_of(ctx, o).items():
                setattr(f, name, value)
        elif how == 'setmember':
            f.structure.update(members)
        elif how == 'redefine':
            f.redefine(dec(o['values'], ctx.world, ctx), o.get('strategy', 'append'))
        elif how == 'deepattr':
            for sub in ctx.walk(f):
                for name, value in params_of(ctx, o).items():
                    setattr(sub, name, value)
        return 'changed'
    return call


def shape(v):
    """What containers hold, where fields stand for themselves."""
    t = type(v)
    if isinstance(v, dict):
        return dict((k, shape(x)) for k, x in v.items())
    if t is list or t is tuple:
        return [shape(x) for x in v]
    return id(v) if hasattr(t, 'basetype') else canon(v)


@operation
def construct_from(ctx, task, o):
    """Several schemas from the same constructor arguments; what is done to one is not seen in the others."""
    from dst.build import arguments
    cls, args = arguments(o['spec'], ctx.world, ctx)
    if 'params' in o:
        args.update(params_of(ctx, o))
    before = shape(args)

    def call():
        first = cls(**args)
        if shape(args) != before:
            return 'arguments changed'
        if first.type == 'structure' and not first.polymorphic_on:
            first.insert(ctx.world.scheme.Text(name='zz_more'), True)
            first.remove(sorted(first.structure)[0])
        first.aspects['zz_mark'] = 1
        if first.type == 'enumeration':
            first.redefine(['zz_more'])
        second = cls(**args)
        if shape(args) != before:
            return 'arguments changed'
        return ('left', first, second)
    return call


@operation
def define(ctx, task, o):
    p = ctx.placeholder(o['p'])
    from dst.build import build
    f = build(o['spec'], ctx.world, ctx) if 'spec' in o else ctx.target(task, o)

    def call():
        p.define(f)
        return 'defined'
    return call


# -- names
@operation
def construct(ctx, task, o):
    """Field.reconstruct by type name."""
    F = ctx.world.scheme.Field
    p = params_of(ctx, o)
    return lambda: F.reconstruct(o['type'], **p)


@operation
def import_name(ctx, task, o):
    fn = ctx.world.mod('scheme.util').import_object
    return lambda: fn(o['name'])


@operation
def identify(ctx, task, o):
    fn = ctx.world.mod('scheme.util').identify_object
    v = ctx.value(task, o)
    return lambda: fn(v)


@operation
def identify_back(ctx, task, o):
    util = ctx.world.mod('scheme.util')
    v = ctx.value(task, o)

    def call():
        name = util.identify_object(v)
        back = util.import_object(name)
        return (name, back is v)
    return call


class Ids(object):
    """Stands in for ``id``: addresses of collected objects are given out again, the last one first."""

    def __init__(self):
        self.known = {}
        self.gone = []
        self.free = []
        self.next = 4096

    def __call__(self, obj):
        key = id(obj)
        if key in self.known:
            ref, number = self.known[key]
            if ref() is obj:
                return number
            self.gone.append((ref, number))
        if self.free:
            number = self.free.pop()
        else:
            self.next += 16
            number = self.next
        try:
            ref = weakref.ref(obj)
        except TypeError:
            def ref(obj=obj):
                return obj
        self.known[key] = (ref, number)
        return number

    def collect(self):
        gc.collect()
        dead = [n for ref, n in self.gone]
        self.gone = []
        for key, (ref, number) in list(self.known.items()):
            if ref() is None:
                dead.append(number)
                del self.known[key]
        self.free.extend(sorted(dead))


@operation
def churn(ctx, task, o):
    """Objects that come and go; each is referred to while it is there."""
    util = ctx.world.mod('scheme.util')
    app = ctx.world.app
    ids = ctx.ids
    names = ['TEMP_%d_%d_%d' % (task.tid, task.opidx, i) for i in range(o['n'])]

    def appear(name):
        obj = getattr(app, o['kind'])(name)
        setattr(app, name, obj)
        task.data['temp'] = obj

    def disappear(name):
        delattr(app, name)
        del task.data['temp']
        ids.collect()

    def call():
        out = []
        for name in names:
            appear(name)
            found = util.identify_object(task.data['temp'])
            out.append((found == 'dstapp.' + name, util.import_object(found) is task.data['temp']))
            disappear(name)
        return out
    return call


@operation
def import_again(ctx, task, o):
    """Whether a name still denotes the object it denoted earlier."""
    fn = ctx.world.mod('scheme.util').import_object
    if o['of'] not in task.data['raw']:
        raise ctx.missing(o)
    v = task.data['raw'][o['of']]

    def call():
        again = fn(o['name'])
        return isinstance(v, Exception) or again is v
    return call


@operation
def identify_raw(ctx, task, o):
    """Whether the reference made from an object denotes it."""
    util = ctx.world.mod('scheme.util')
    v = task.data['raw'].get(o['of'])

    def call():
        if v is None or isinstance(v, (Exception, str)):
            return 'no object'
        name = util.identify_object(v)
        return (name, util.import_object(name) is v)
    return call


@operation
def back_of(ctx, task, o):
    """Whether the reference made by an earlier operation still denotes its object."""
    util = ctx.world.mod('scheme.util')
    name = task.data['raw'].get(o['of'])
    v = ctx.value(task, o)
    return lambda: 'no reference' if not isinstance(name, str) else util.import_object(name) is v


@operation
def register(ctx, task, o):
    """A new class of the application: a field, a format or a surrogate."""
    scheme = ctx.world.scheme
    name, tag = o['name'], o['tag']
    namespace = {'__module__': 'dstapp', 'tag': tag}
    if o['what'] == 'field':
        base = getattr(scheme, o['base'])
        namespace.update(errors=[ctx.world.mod('scheme.field').FieldError('err%s' % tag, 'custom', '%(field)s is custom')],
            parameters={'extra%s' % tag: None})
    elif o['what'] == 'format':
        base = scheme.Format

        def serialize(cls, value, schema=None, **params):
            return '%s|%s' % (tag, canon(value))

        def unserialize(cls, value, schema=None, **params):
            return [tag, value]
        namespace.update(name=o['key'], mimetype=o.get('mimetype'), extensions=o.get('extensions'),
            serialize=classmethod(serialize), unserialize=classmethod(unserialize))
    else:
        base = scheme.surrogate
        namespace.update(schemas=(scheme.Structure({'n%s' % tag: scheme.Integer(required=True)}),))

    def call():
        cls = type(base)(name, (base,), namespace)
        ctx.registered[name] = cls
        if o['what'] == 'surrogate':
            setattr(ctx.world.app, name, cls)
        return 'registered'
    return call


@operation
def use_type(ctx, task, o):
    F = ctx.world.scheme.Field
    params = params_of(ctx, o)
    v = ctx.value(task, o) if 'v' in o else None
    name = o['type']

    def call():
        if o.get('how') == 'params':
            f = F.reconstruct(name, **params)
        else:
            f = F.reconstruct(dict(params, fieldtype=name))
        cls = type(f)
        try:
            result = f.process(v, 'inbound', True)
        except ctx.world.scheme.StructuralError as e:
            result = e
        return (cls.__name__, getattr(cls, 'tag', None), sorted(cls.errors), sorted(cls.parameters), f.describe(), result)
    return call


@operation
def use_format(ctx, task, o):
    F = ctx.world.scheme.Format
    key = ctx.format_key(o)
    how = o['how']
    if how == 'lookup':
        return lambda: (F.formats[key].name, getattr(F.formats[key], 'tag', None))
    if how == 'serialize':
        return lambda: F.serialize({'k': [1, 'two']}, key)
    if how == 'unserialize':
        return lambda: F.unserialize('{"k": [1]}', key)
    if how == 'field':
        f = ctx.world.scheme.Map(ctx.world.scheme.Integer())
        return lambda: (f.serialize({'k': 1}, key), f.unserialize('{"k": 2}', key))
    path = ctx.fs.path('%s%d_%d%s' % (o.get('stem', 'doc'), task.tid if isinstance(task.tid, int) else 99, task.opidx, o['ext']))
    params = {} if how == 'path' else {'format': key}

    def call():
        F.write(path, {'k': ['v', 3]}, **params)
        return F.read(path, **params)
    return call


@operation
def format_lookup(ctx, task, o):
    F = ctx.world.scheme.Format
    key = ctx.format_key(o)
    return lambda: F.formats[key].name


@operation
def surrogate_op(ctx, task, o):
    scheme = ctx.world.scheme
    s = scheme.surrogate
    how = o['how']
    v = ctx.value(task, o) if 'v' in o or 'arg' in o or 'pick' in o else None
    p = params_of(ctx, o)
    kw = {}
    if o.get('version') is not None:
        kw['version'] = o['version']
    if o.get('schema') is not None:
        kw['schema'] = ctx.schemas[o['schema']]
    impl = o.get('impl')
    if impl is not None and not impl.startswith('@'):
        impl = dec({'%obj': impl}, ctx.world)
    elif impl is not None:
        impl = impl[1:]
    if how == 'construct':
        return lambda: s.construct(impl, v, **dict(kw, **p))
    if how == 'acquire':
        return lambda: s.acquire(impl, kw.get('version'), **p)
    if how == 'unserialize':
        return lambda: s.unserialize(v)
    if how == 'serialize':
        return lambda: v.serialize()
    if how == 'roundtrip':
        def call():
            made = s.construct(impl, v, **dict(kw, **p))
            wire = made.serialize()
            back = s.unserialize(wire)
            return (canon(made), made == back, type(made) is type(back), made.version == back.version,
                canon(back))
        return call
    if how == 'interpolate':
        parameters = ctx.value(task, o, 'parameters')
        return lambda: s.interpolate(v, parameters)
    raise ValueError(how)


@operation
def element_op(ctx, task, o):
    cls = dec({'%obj': o['cls']}, ctx.world)
    how = o['how']
    v = ctx.value(task, o) if 'v' in o or 'arg' in o or 'pick' in o else None
    if how == 'new':
        return lambda: cls(**v)
    if how == 'unserialize':
        return lambda: cls.unserialize(v, o.get('fmt'))
    if how == 'serialize':
        return lambda: v.serialize(o.get('fmt'))
    if how == 'instantiate':
        return lambda: cls.schema.instantiate(v, o.get('key'))
    if how == 'extract':
        return lambda: cls.schema.extract(v)
    if how == 'repr':
        return lambda: repr(v)
    if how == 'roundtrip':
        def call():
            made = cls.unserialize(v, o.get('fmt'))
            wire = made.serialize(o.get('fmt'))
            back = cls.unserialize(wire, o.get('fmt'))
            return (canon(made), canon(made) == canon(back), type(made) is type(back))
        return call
    raise ValueError(how)


@operation
def peek(ctx, task, o):
    """What an object made earlier looks like now."""
    v = task.data['raw'].get(o['of'])
    return lambda: v


@operation
def wire_of(ctx, task, o):
    """The serialized form of an object, as one more thing the caller holds."""
    v = task.data['raw'].get(o['of'])
    if not hasattr(v, 'serialize') or isinstance(v, BaseException):
        return lambda: 'no object'
    if holds_raw(v):
        return lambda: 'opaque'
    s = ctx.world.scheme.surrogate
    if isinstance(v, s) and not v.schemas and not v.schema:
        return lambda: 'opaque'
    return lambda: v.serialize()


@operation
def touch(ctx, task, o):
    """An object its owner has changed is used some more; what comes of it is the owner's affair."""
    v = task.data['raw'].get(o['of'])
    how = o['how']

    def call():
        if isinstance(v, BaseException):
            return
        if hasattr(v, '__dict__') and type(v).__module__.startswith('dstapp') and not isinstance(v, dict):
            v.own_note = ['own']
        try:
            if how == 'serialize':
                v.serialize()
            elif how == 'again':
                if isinstance(v, dict) and not hasattr(v, 'serialize'):
                    ctx.world.scheme.surrogate.unserialize(v)
                else:
                    type(v).unserialize(v.serialize())
            elif how == 'extract':
                type(v).schema.extract(v)
            elif how == 'repr':
                repr(v)
        except Exception:
            pass
    return call


@operation
def same_as(ctx, task, o):
    """What an object read back lost of the one it was written from."""
    v, w = task.data['raw'].get(o['of']), task.data['raw'].get(o['with'])
    s = ctx.world.scheme.surrogate

    def call():
        if not isinstance(v, s) and not (hasattr(type(v), 'schema') and hasattr(v, 'serialize')) or isinstance(w, Exception) or w is None:
            return 'no object'
        if type(v) is not type(w):
            return ['class', canon(type(v)), canon(type(w))]
        known = None
        if isinstance(v, s):
            known = v.schema
            if v.schemas and not known:
                if not isinstance(v.version, int) or not 0 < v.version <= len(v.schemas):
                    return 'no object'
                known = v.schemas[v.version - 1]
            if v.version != w.version:
                return ['version', v.version, w.version]
            known = getattr(known, 'structure', None)
            a, b = dict(v), dict(w)
        else:
            a, b = v.__dict__, w.__dict__
        # what the schema does not name is not written
        lost = [k for k in a if (not known or k in known) and a[k] is not None and (k not in b or canon(a[k]) != canon(b[k]))]
        if lost:
            return ['values', sorted(lost), canon(a), canon(b)]
        return 'same'
    return call


def holds_raw(v):
    """Whether an element holds values its schema says nothing about (an opaque field passes them as they are)."""
    if isinstance(v, (list, tuple)):
        return any(holds_raw(x) for x in v)
    if isinstance(v, dict):
        return any(holds_raw(x) for x in v.values())
    attrs = getattr(v, '__dict__', None)
    if not attrs or not type(v).__module__.startswith('dstapp'):
        return False
    return isinstance(attrs.get('raw'), (dict, list)) or any(holds_raw(x) for x in attrs.values())


@operation
def object_again(ctx, task, o):
    """A second object made from an earlier one."""
    v = task.data['raw'].get(o['of'])
    s = ctx.world.scheme.surrogate
    how = o['how']

    def call():
        if isinstance(v, s):
            if how == 'schema' and v.schemas and not v.schema:
                return type(v).construct(None, v, version=v.version)
            wire = v.serialize()
            if not v.schemas and not v.schema:
                # nothing is known about its values: only a real copy is separate
                from copy import deepcopy
                wire = deepcopy(wire)
            return s.unserialize(wire)
        if not hasattr(type(v), 'schema') or not hasattr(v, 'serialize'):
            return 'no object'
        from copy import deepcopy
        apart = deepcopy if holds_raw(v) else (lambda x: x)
        if how == 'schema':
            schema = type(v).schema
            return schema.instantiate(apart(schema.extract(v)))
        fmt = 'json' if how == 'json' else None
        return type(v).unserialize(apart(v.serialize(fmt)), fmt)
    return call


# -- dates
def plain_dates(v):
    """Date-times as (wall, offset, zone), others as text; containers kept."""
    import datetime as dt
    if isinstance(v, dt.datetime):
        offset = v.utcoffset()
        return ((v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond),
            None if offset is None else offset.total_seconds(), repr(v.tzinfo))
    if isinstance(v, dt.date):
        return v.isoformat()
    if isinstance(v, dt.time):
        return v.strftime('%H:%M:%S')
    if isinstance(v, dict):
        return dict((k, plain_dates(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain_dates(x) for x in v]
    return v


@operation
def dates(ctx, task, o):
    """Sending date-times one way or there and back."""
    f, v, fmt = ctx.target(task, o), ctx.value(task, o), o.get('fmt')
    mode = o['mode']
    F = ctx.world.scheme.Field
    import json

    def call():
        g = F.reconstruct(f.describe()) if o.get('rebuilt') else f
        if mode == 'out':
            return json.loads(g.serialize(v, 'json')) if fmt else g.process(v, 'outbound', True)
        if mode == 'in':
            return plain_dates(g.unserialize(json.dumps(v), 'json') if fmt else g.process(v, 'inbound', True))
        if mode == 'native':
            return plain_dates(g.process(v, 'inbound', False))
        if mode == 'there':
            return plain_dates(g.unserialize(g.serialize(v)))
        if mode == 'back':
            return g.serialize(g.unserialize(v))
        raise ValueError(mode)
    return call


# -- clock
@operation
def timestamp(ctx, task, o):
    fn = ctx.world.scheme.current_timestamp
    args = []
    if 'tz' in o:
        tz = o['tz']
        if tz == 'UTC':
            args = [ctx.world.scheme.UTC]
        elif tz == 'LOCAL':
            args = [ctx.world.scheme.LOCAL]
        elif isinstance(tz, int):
            from dst.vals import fixed_tz
            args = [fixed_tz(tz)]
        else:
            args = [dec(tz, ctx.world, ctx)]
    if o.get('plain'):
        return lambda: plain_dates(fn(*args))
    return lambda: fn(*args)


# -- files
@operation
def write_file(ctx, task, o):
    path, v, p = ctx.fs.path(o['path']), ctx.value(task, o), params_of(ctx, o)
    fmt = ctx.format_key(o) if 'fmt' in o else None
    how = o.get('how', 'field')
    if how == 'field':
        f = ctx.target(task, o)
        return lambda: f.write(path, v, fmt, **p)
    f = ctx.target(task, o) if 's' in o else None
    F = ctx.world.scheme.Format if how == 'format' else ctx.world.scheme.Format.formats[how]
    return lambda: F.write(path, v, fmt, f, **p)


@operation
def read_file(ctx, task, o):
    path, p = ctx.fs.path(o['path']) if o.get('path') is not None else o['rawpath'], params_of(ctx, o)
    fmt = ctx.format_key(o) if 'fmt' in o else None
    how = o.get('how', 'field')
    if how == 'field':
        f = ctx.target(task, o)
        return lambda: f.read(path, fmt, **p)
    f = ctx.target(task, o) if 's' in o else None
    F = ctx.world.scheme.Format if how == 'format' else ctx.world.scheme.Format.formats[how]
    return lambda: F.read(path, fmt, f, **p)


# -- what files should hold (references; run alone, without storage)
@operation
def render_document(ctx, task, o):
    """The text a file write should leave behind."""
    v, p = ctx.value(task, o), params_of(ctx, o)
    f = ctx.target(task, o) if 's' in o else None
    F = ctx.world.scheme.Format

    def call():
        value = f.process(v, 'outbound', True) if o.get('how', 'field') == 'field' else v
        return F.formats[o['name']].serialize(value, f, **p)
    return call


@operation
def decode_document(ctx, task, o):
    """What a file read should return for a whole document."""
    p = params_of(ctx, o)
    f = ctx.target(task, o) if 's' in o else None
    F = ctx.world.scheme.Format

    def call():
        text = bytes.fromhex(o['bytes']).decode('utf-8').replace('\r\n', '\n').replace('\r', '\n')
        value = F.formats[o['name']].unserialize(text, f, **p)
        return f.process(value, 'inbound', True) if o.get('how', 'field') == 'field' else value
    return call


@operation
def pretty(ctx, task, o):
    v = ctx.value(task, o)
    fn = ctx.world.mod('scheme.util').format_structure
    return lambda: fn(v, False, o.get('masks'))
