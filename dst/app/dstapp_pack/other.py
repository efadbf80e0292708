"""Needs its sibling and another module."""
import dstapp_extra
from dstapp_pack.sub import Common

LINKS = (dstapp_extra.LINK, Common)


def sub_function(field, value, key=None):
    return ('other', value)
