"""A module that is imported only when a reference to it is resolved."""
from scheme import Integer, Structure, Text, surrogate


class LatePoint(surrogate):
    schemas = (
        Structure({'a': Integer(required=True)}),
        Structure({'a': Integer(required=True), 'b': Text(default='bb')}),
    )


class Late(object):
    class Inner(object):
        leaf = 'late-leaf'


def late_function():
    return 'late'


VALUE = 'late-value'
