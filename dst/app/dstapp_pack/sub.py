from dstapp_pack import NAME
from scheme import Integer, Structure, surrogate

THING = [NAME, 'thing']


class Common(object):
    where = 'sub'

    class Deep(object):
        class Deeper(object):
            leaf = 'leaf'


class PackPoint(surrogate):
    schemas = (
        Structure({'p': Integer(required=True)}),
        Structure({'p': Integer(required=True), 'q': Integer(default=7)}),
    )


def sub_function(field, value, key=None):
    return ('sub', value)
