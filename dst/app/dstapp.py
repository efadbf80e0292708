"""A small application of the library, used by the simulated callers.

Everything here is plain application code: callbacks, template functions,
elements, surrogates and objects to refer to.  ``callback`` is where the
simulator may make a callback fail, yield or call back into the library.
"""
from collections import OrderedDict

from dst.hooks import callback

from scheme import *
from scheme.interpolation import Interpolator


# -- preprocessors
def pre_same(value):
    callback('pre_same', value)
    return value


def pre_strip(value):
    callback('pre_strip', value)
    return value.strip()


def pre_number(value):
    callback('pre_number', value)
    return value + 0


def pre_list(value):
    callback('pre_list', value)
    result = []
    for item in value:
        result.append(item)
    return result


def pre_dict(value):
    callback('pre_dict', value)
    result = {}
    for key, item in value.items():
        if key != 'drop':
            result[key] = item
    return result


def pre_tuple(value):
    callback('pre_tuple', value)
    return tuple(value)


# -- extractors
def ext_same(field, subject):
    callback('ext_same')
    return subject


def ext_carrier(field, subject):
    callback('ext_carrier')
    if isinstance(subject, Carrier):
        return subject.__dict__
    return subject


def ext_value(field, subject):
    callback('ext_value')
    if isinstance(subject, Carrier):
        return subject.value
    return subject


def ext_list(field, subject):
    callback('ext_list')
    if isinstance(subject, Carrier):
        return subject.value
    return subject[:]


# -- instantiators
def inst_box(field, value, key=None):
    callback('inst_box')
    return Box(field.name, value, key)


def inst_same(field, value, key=None):
    callback('inst_same')
    return value


class Carrier(object):
    """A plain object values are extracted from."""


class Box(object):
    def __init__(self, name, value, key):
        self.name = name
        self.value = value
        self.key = key


class ClassInstantiator(object):
    @staticmethod
    def __instantiate__(field, value, key=None):
        callback('class_inst')
        return Box('class', value, key)

    @staticmethod
    def __extract__(field, subject):
        callback('class_ext')
        if isinstance(subject, Carrier):
            return subject.__dict__
        return subject


# -- objects that can be referred to
class Equal(object):
    """Instances compare equal to each other and hash alike."""

    def __init__(self, token):
        self.dst_token = token

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 7


class Unhashable(object):
    __hash__ = None

    def __init__(self, token):
        self.dst_token = token


class Plain(object):
    def __init__(self, token):
        self.dst_token = token

    def __repr__(self):
        return 'Plain(%s)' % self.dst_token


EQ_A = Equal('a')
EQ_B = Equal('b')
EQ_C = Equal('c')
UN_A = Unhashable('ua')
UN_B = Unhashable('ub')
PL_A = Plain('pa')
PL_B = Plain('pb')


def fn_one():
    return 1


def fn_two():
    return 2


def fn_named():
    return 3


fn_named.__name__ = 'fn_one'       # as decorators leave it


def fn_hidden():
    return 4


fn_twin, fn_hidden = fn_hidden, Plain('hidden')
LAMBDA = lambda: 5
PLAIN_NAMED = Plain('named')
PLAIN_NAMED.__name__ = 'fn_two'


class Holder(object):
    inner = Plain('inner')

    class Nested(object):
        deep = 5


# -- template functions
def tf_upper(value):
    callback('tf_upper')
    return str(value).upper()


def tf_twice(value):
    callback('tf_twice')
    return value * 2


def tf_pair(a, b):
    callback('tf_pair')
    return '%s-%s' % (a, b)


def tf_fresh(*values):
    callback('tf_fresh')
    return {'values': list(values), 'k': ['fresh']} if values else ['fresh', {'k': 1}]


def other_upper(value):
    callback('other_upper')
    return 'other:' + str(value).upper()


INTERP_A = Interpolator(filters={'up': tf_upper}, globals={'fn': tf_upper, 'twice': tf_twice, 'pair': tf_pair, 'fresh': tf_fresh,
    'who': 'A', 'level': 11})
INTERP_B = Interpolator(filters={'up': other_upper}, globals={'fn': other_upper, 'twice': tf_twice, 'pair': tf_pair, 'fresh': tf_fresh,
    'who': 'B', 'level': 22})


# -- elements
class Doc(Element):
    schema = Structure({
        'id': Text(),
        'name': Text(nonempty=True),
        'tags': Sequence(Text(), default=['x', 'y']),
        'opts': Map(Integer(), default={'one': 1, 'two': 2}),
        'meta': Structure({'level': Integer(default=3), 'notes': Sequence(Text(), default=['n'])},
            generate_default=True),
        'pair': Tuple((Integer(), Text())),
        'count': Integer(default=5),
        'when': Date(),
    }, nonnull=True)
    key_attr = 'id'


class Item(Element):
    schema = Structure({
        'title': Text(required=True),
        'values': Sequence(Integer(), default=[1, 2, 3]),
        'raw': Field(default={'deep': [1, {'x': [2]}]}),
    })


class Tagged(Element):
    schema = Sequence(Text(), name='labels', default=['l1', 'l2'])


class Entry(Element):
    schema = Structure({'n': Integer(), 'marks': Sequence(Text(), default=['e'])})
    key_attr = 'ident'


class Shelf(Element):
    schema = Structure({
        'items': Sequence(Item.schema),
        'best': Item.schema.clone(name='best'),
        'byname': Map(Doc.schema),
        'entries': Map(Entry.schema),
    })


class Animal(Element):
    schema = Structure({
        '*': {'name': Text(required=True), 'marks': Sequence(Text(), default=['m'])},
        'dog': {'tricks': Sequence(Text(), default=['sit'])},
        'cat': {'lives': Integer(default=9), 'toys': Map(Integer(), default={'ball': 1})},
        'fish': {},
    }, polymorphic_on='kind')


class Dog(Animal):
    polymorphic_identity = 'dog'


class Cat(Animal):
    polymorphic_identity = 'cat'


class Zoo(object):
    """Other classes of the same names."""

    class Animal(Element):
        schema = Structure({
            'dog': {'age': Integer(default=1)},
            'wolf': {'pack': Sequence(Text(), default=['w'])},
        }, polymorphic_on='kind')

    class Doc(Element):
        schema = Structure({'id': Integer(default=7), 'body': Sequence(Text(), default=['b'])})


class ZooDog(Zoo.Animal):
    polymorphic_identity = 'dog'


class ZooWolf(Zoo.Animal):
    polymorphic_identity = 'wolf'


# -- surrogates
class Point(surrogate):
    schemas = (
        Structure({'x': Integer(required=True), 'y': Integer(required=True)}),
        Structure({'x': Integer(required=True), 'y': Integer(required=True), 'z': Integer(default=0),
            'labels': Sequence(Text(), default=['p'])}),
        Structure({'x': Integer(required=True), 'y': Integer(required=True), 'z': Integer(default=0),
            'labels': Sequence(Text(), default=['q', 'r']), 'on': Date(), 'at': DateTime(utc=True)}),
    )

    @classmethod
    def _acquire_surrogate(cls, version, **params):
        callback('acquire')
        return dict(params)


class Person(surrogate):
    schemas = (
        Structure({'name': Text(required=True), 'emails': Sequence(Text(), default=[])}),
    )

    @classmethod
    def contribute(cls, value, version):
        callback('contribute')
        value['seen'] = version


class Loose(surrogate):
    pass


class Marked(surrogate):
    schemas = (Structure({'outer': Integer(required=True)}),)


class Marker(object):
    class Marked(surrogate):
        """Same class name as the one above."""
        schemas = (Structure({'inner': Integer(required=True)}),)


# -- a field that cannot be used without notice
class Reached(BaseException):
    pass


class Probe(Field):
    def __init__(self, why):
        super(Probe, self).__init__()
        self.why = why

    def __repr__(self):
        return 'Probe()'

    def __getattribute__(self, name):
        if name in ('name', 'why') or name.startswith('__'):
            return object.__getattribute__(self, name)
        if 'why' in object.__getattribute__(self, '__dict__'):
            raise Reached(object.__getattribute__(self, 'why'))
        return object.__getattribute__(self, name)
