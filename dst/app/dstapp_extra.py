"""Another late module; it needs dstapp_late."""
import dstapp_late
from scheme import Integer, Structure, surrogate


class ExtraPoint(surrogate):
    schemas = (Structure({'e': Integer(required=True)}),)


class LatePoint(surrogate):
    """Same class name as in dstapp_late, different schema."""
    schemas = (Structure({'other': Integer(required=True)}),)


def late_function():
    return 'extra'


LINK = dstapp_late.Late
