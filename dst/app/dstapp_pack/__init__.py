"""A package; its members are imported only when references to them are resolved."""
NAME = 'pack-name'


class Common(object):
    where = 'pack'
