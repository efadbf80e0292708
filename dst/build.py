"""Builds schema objects of a world from their JSON specification.

A specification is [type, params] with type a field type name; params are
constructor parameters, encoded like values.  Children: 'item', 'value', 'key'
(a spec), 'values', 'fields' (lists of specs), 'structure' (list of
[name, spec]), or 'variants' (list of [identity, [[name, spec], ...]]) with
'on' (a name or a spec).  ['ref', i] is shared field i of the context,
['undef', i] placeholder i, ['probe', why] a field that tells when it is reached.
"""
from collections import OrderedDict

from dst.vals import dec

CLASSES = {
    'field': 'Field', 'integer': 'Integer', 'float': 'Float', 'decimal': 'Decimal',
    'boolean': 'Boolean', 'text': 'Text', 'token': 'Token', 'uuid': 'UUID', 'email': 'Email',
    'date': 'Date', 'time': 'Time', 'datetime': 'DateTime', 'binary': 'Binary',
    'enumeration': 'Enumeration', 'object': 'Object', 'definition': 'Definition',
    'error': 'Error', 'surrogate': 'Surrogate', 'sequence': 'Sequence', 'tuple': 'Tuple',
    'map': 'Map', 'structure': 'Structure', 'union': 'Union',
}
CALLBACKS = ('preprocessor', 'extractor', 'instantiator')


def build(spec, world, ctx=None):
    cls, args = arguments(spec, world, ctx)
    return cls if args is None else cls(**args)


def arguments(spec, world, ctx=None):
    """The class and the constructor arguments; or the field itself and None."""
    kind = spec[0]
    if kind == 'ref':
        return ctx.subfield(spec[1]), None
    if kind == 'undef':
        return ctx.placeholder(spec[1]), None
    if kind == 'probe':         # tells that it was reached
        return world.app.Probe(spec[1]), None
    if kind == 'schema':        # one of the schemas of the case
        return ctx.schemas[spec[1]], None
    if kind == 'lent':          # a member of one of the schemas of the case
        return ctx.schemas[spec[1]['of']].structure[spec[1]['member']], None
    if kind == 'cls':           # schema of an application class
        return dec({'%obj': spec[1]}, world).schema, None
    import scheme.fields
    scheme = world.scheme
    args = {}
    for name, value in spec[1].items():
        if name in ('item', 'value', 'key') and isinstance(value, list):
            args[name] = build(value, world, ctx)
        elif name in ('values', 'fields'):
            args[name] = [build(s, world, ctx) for s in value]
        elif name == 'structure':
            args[name] = dict((n, build(s, world, ctx)) for n, s in value)
        elif name == 'variants':
            args['structure'] = OrderedDict((identity,
                dict((n, build(s, world, ctx)) for n, s in members))
                for identity, members in value)
        elif name == 'on':
            args['polymorphic_on'] = value if isinstance(value, str) else build(value, world, ctx)
        elif name == 'common':
            pass
        elif name in CALLBACKS:
            args[name] = value if value.startswith('@') else getattr(world.app, value)
            if isinstance(args[name], str):
                args[name] = 'dstapp.' + value[1:]
        elif name == 'errors':
            args[name] = [scheme.FieldError(*dec(e, world, ctx)) for e in value]
        elif name == 'aspects':
            args.setdefault('aspects', {}).update(dec(value, world, ctx))
        else:
            args[name] = dec(value, world, ctx)
    if kind == 'structure' and 'variants' in spec[1] and spec[1].get('common'):
        args['structure']['*'] = dict((n, build(s, world, ctx)) for n, s in spec[1]['common'])
    if kind == 'email' and 'errors' in args:
        del args['errors']
    cls = getattr(scheme, CLASSES[kind], None)
    if cls is None:
        cls = scheme.Field.types[kind]
    return cls, args
