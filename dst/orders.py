"""Iteration orders of hash-based collections, decided by a seed.

Strings hash differently from process to process, so sets enumerate in any
order; the interpreter these runs use happens to keep insertion order.  Under a
seed, the library's sets (those it makes by calling ``set`` or ``frozenset``,
by displays and by comprehensions) enumerate in an order drawn from that seed,
``hash`` of a string gives a number drawn from it, and the mappings handed to
the library are filled in orders drawn from further seeds.
"""
import builtins
import random
import zlib

SEED = [None]       # order of sets in the active world; None: as the interpreter does
ITERATED = [0]

_set, _frozenset, _hash = builtins.set, builtins.frozenset, builtins.hash


def _key(item):
    return zlib.crc32(('%s|%s|%r' % (SEED[0], type(item).__name__, item)).encode('utf-8', 'replace'))


def arranged(items):
    items = list(items)
    if len(items) > 1:
        ITERATED[0] += 1
        items.sort(key=_key)
    return items


class _Like(type):
    """isinstance() of plain sets holds as before."""

    def __instancecheck__(cls, value):
        return isinstance(value, cls.plain)

    def __subclasscheck__(cls, other):
        return issubclass(other, cls.plain)


def _operators(base):
    d = {}

    def binary(name):
        plain = getattr(base, name)

        def method(self, *args):
            r = plain(self, *args)
            return r if r is NotImplemented or not isinstance(r, (_set, _frozenset)) else type(self)(r)
        return method
    for name in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', 'union',
            'intersection', 'difference', 'symmetric_difference', 'copy'):
        d[name] = binary(name)

    def __iter__(self):
        return iter(arranged(base.__iter__(self)))
    d['__iter__'] = __iter__
    return d


def _pop(self):
    for item in self:
        self.remove(item)
        return item
    raise KeyError('pop from an empty set')


def _repr(self):
    return '{%s}' % ', '.join(repr(i) for i in self) if len(self) else 'set()'


Set = _Like('set', (_set,), dict(_operators(_set), plain=_set, pop=_pop, __repr__=_repr))
Frozen = _Like('frozenset', (_frozenset,), dict(_operators(_frozenset), plain=_frozenset))


def seeded_hash(x):
    if isinstance(x, (str, bytes)):
        return zlib.crc32(('%s|%r' % (SEED[0], x)).encode('utf-8', 'replace')) - (1 << 31)
    return _hash(x)


def made(s):
    """Every set display and comprehension of the library passes here."""
    return s if SEED[0] is None else Set(s)


def shadow(d):
    """Gives a module of the library the seeded collections."""
    if SEED[0] is not None:
        d.setdefault('set', Set)
        d.setdefault('frozenset', Frozen)
        d.setdefault('hash', seeded_hash)


# ---------------------------------------------------------------- mappings filled in other orders
def shuffled(rng, items):
    items = list(items)
    rng.shuffle(items)
    return items


def refill(rng, e):
    """The encoded value ``e`` with every unordered mapping and set filled in another order."""
    if isinstance(e, list):
        return [refill(rng, i) for i in e]
    if not isinstance(e, dict) or len(e) != 1:
        return e
    (tag, d), = e.items()
    if tag == '%d':
        return {tag: shuffled(rng, [[refill(rng, k), refill(rng, v)] for k, v in d])}
    if tag == '%carrier':
        return {tag: shuffled(rng, [[k, refill(rng, v)] for k, v in d])}
    if tag == '%set':
        return {tag: shuffled(rng, d)}
    if tag == '%od':
        return {tag: [[refill(rng, k), refill(rng, v)] for k, v in d]}
    if tag == '%t':
        return {tag: [refill(rng, i) for i in d]}
    if tag == '%field':
        return {tag: reorder(rng, d)}
    if tag == '%sur':
        return {tag: [d[0], refill(rng, d[1]), d[2]]}
    if tag == '%err':
        return {tag: [refill(rng, d[0]), refill(rng, d[1])]}
    return e


def reorder(rng, spec):
    """The schema ``spec`` with its mappings of members filled in another order."""
    if not isinstance(spec, list) or len(spec) != 2 or not isinstance(spec[1], dict):
        return spec
    out = {}
    for k, v in spec[1].items():
        if k in ('item', 'value', 'key') and isinstance(v, list):
            v = reorder(rng, v)
        elif k in ('values', 'fields'):
            v = [reorder(rng, s) for s in v]
        elif k in ('structure', 'common'):
            v = shuffled(rng, [[n, reorder(rng, s)] for n, s in v])
        elif k == 'variants':
            v = shuffled(rng, [[i, shuffled(rng, [[n, reorder(rng, s)] for n, s in mm])] for i, mm in v])
        elif k == 'on':
            v = reorder(rng, v)
        else:
            v = refill(rng, v)
        out[k] = v
    return [spec[0], out]


def reorder_op(rng, o):
    o = dict(o)
    for k in ('v', 'parameters', 'params'):
        if k in o:
            o[k] = refill(rng, o[k])
    if 'members' in o:
        o['members'] = shuffled(rng, [[n, reorder(rng, s)] for n, s in o['members']])
    return o


def generator(salt):
    rng = random.Random(salt)
    if not salt:
        rng.shuffle = lambda items: None
    return rng
