bug('C09-surrogate-placeholder','C09',[
('scheme/surrogate.py','''        try:
            impl = import_object(token)
        except ImportError:
            return surrogate
''','''        # a module can use its own surrogates while it is imported
        cls.cache[token] = surrogate
        try:
            impl = import_object(token)
        except ImportError:
            del cls.cache[token]
            return surrogate
'''),
],'''
from scheme import *
import builtins

scratch = tempfile.mkdtemp()
try:
    with open(os.path.join(scratch, 'demo_things.py'), 'w') as openfile:
        openfile.write("from scheme import *\\nclass thing(surrogate):\\n    schemas = (Structure({'a': Integer()}),)\\n")
    sys.path.insert(0, scratch)
    original = builtins.__import__
    def interrupted(name, *args, **params):
        if name == 'demo_things':
            builtins.__import__ = original
            raise KeyboardInterrupt()
        return original(name, *args, **params)
    builtins.__import__ = interrupted
    try:
        Surrogate().unserialize({'_': 'demo_things.thing', 'a': 1})
    except KeyboardInterrupt:
        pass
    value = Surrogate().unserialize({'_': 'demo_things.thing', 'a': 1})
    assert type(value).__name__ == 'thing', type(value)
finally:
    shutil.rmtree(scratch)
''','an interrupt while the class of a surrogate is being imported for the first time','the token resolves to the generic surrogate from then on')

bug('C09-undefined-left-strict','C09',[
('scheme/interpolation.py','''        expression = self.environment.compile_expression(subject, False)
        try:
            value = expression(**parameters)
            if isinstance(value, self.environment.undefined):
                raise UndefinedParameterError()
        except jinja2.UndefinedError:
            raise UndefinedParameterError()
        else:
            return value''','''        expression = self.environment.compile_expression(subject, False)
        undefined, self.environment.undefined = self.environment.undefined, jinja2.StrictUndefined
        try:
            value = expression(**parameters)
            if isinstance(value, jinja2.Undefined):
                raise UndefinedParameterError()
        except jinja2.UndefinedError:
            self.environment.undefined = undefined
            raise UndefinedParameterError()
        except Exception:
            self.environment.undefined = undefined
            raise
        else:
            self.environment.undefined = undefined
            return value'''),
],'''
from scheme import *

def cut():
    raise KeyboardInterrupt()

schema = Structure({'a': Integer(), 'b': Text()})
expected = schema.interpolate({'b': '[${nothing}]'}, {})
try:
    schema.interpolate({'a': '${cut()}'}, {'cut': cut})
except KeyboardInterrupt:
    pass
assert schema.interpolate({'b': '[${nothing}]'}, {}) == expected
''','an interrupt while an expression is evaluated, followed by a template with an undefined parameter','templates with undefined parameters fail from then on')

bug('C10-overwrite-in-place','C10',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        with open(path, os.path.exists(path) and 'r+' or 'w+') as openfile:
            openfile.write(content)
            openfile.truncate()'''),
],'''
from scheme import *
import builtins, io, json

# a device which fails after some bytes
class Device(io.FileIO):
    left = 4000
    def write(self, data):
        if len(data) > Device.left:
            data = data[:Device.left]
        if not len(data):
            raise OSError(28, 'No space left on device')
        count = io.FileIO.write(self, data)
        Device.left -= count
        return count

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    schema = Sequence(Text())
    old = ['old'] * 2000
    schema.write(path, old)
    original = builtins.open
    def limited(name, mode='r', *args, **params):
        if str(name) != path or mode == 'r':
            return original(name, mode, *args, **params)
        raw = Device(name, mode.replace('+', '') == 'r' and 'r+' or mode)
        return io.TextIOWrapper(io.BufferedRandom(raw))
    builtins.open = limited
    new = ['new'] * 2000
    try:
        schema.write(path, new)
        raise AssertionError('not reported')
    except OSError:
        pass
    finally:
        builtins.open = original
    content = open(path).read()
    assert content == json.dumps(old) or json.dumps(new).startswith(content), content[3980:4020]
finally:
    shutil.rmtree(scratch)
''','a write over an existing file which is cut short by a full disk, an error or the end of the process','the file holds the new document up to some point and the old one from there')

bug('C10-close-ignored','C10',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        openfile = open(path, 'w+')
        try:
            openfile.write(content)
        finally:
            try:
                openfile.close()
            except (IOError, OSError):
                pass'''),
],'''
from scheme import *
import builtins, io

class Device(io.FileIO):
    def write(self, data):
        raise OSError(28, 'No space left on device')

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    original = builtins.open
    def full(name, mode='r', *args, **params):
        if str(name) != path or mode == 'r':
            return original(name, mode, *args, **params)
        return io.TextIOWrapper(io.BufferedWriter(Device(name, 'w')))
    builtins.open = full
    try:
        Integer().write(path, 5)
    except OSError:
        pass
    else:
        raise AssertionError('the failure was lost')
    finally:
        builtins.open = original
finally:
    shutil.rmtree(scratch)
''','a storage failure when the buffered document reaches the device at close','the write returns although nothing was stored')

bug('C11-raw-read','C11',[
('scheme/format.py','''        with open(path) as openfile:
            return format.unserialize(openfile.read(), schema, **params)''','''        with open(path, 'rb', 0) as openfile:
            content = openfile.read(os.path.getsize(path)).decode('utf-8')
        return format.unserialize(content.replace('\\r\\n', '\\n'), schema, **params)'''),
],'''
from scheme import *
import builtins, io

class Device(io.FileIO):
    def read(self, size=-1):
        return io.FileIO.read(self, size if size < 0 else min(size, 7)) if size >= 0 else self.readall()
    def readinto(self, buffer):
        return io.FileIO.readinto(self, memoryview(buffer)[:7])
    def readall(self):
        data = b''
        while True:
            piece = io.FileIO.read(self, 7)
            if not piece:
                return data
            data += piece

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.csv')
    schema = Sequence(Structure({'a': Integer(), 'b': Integer()}))
    value = [{'a': i, 'b': i} for i in range(10)]
    schema.write(path, value)
    original = builtins.open
    def short(name, mode='r', buffering=-1, *args, **params):
        if str(name) != path:
            return original(name, mode, buffering, *args, **params)
        raw = Device(name, 'r')
        if buffering == 0:
            return raw
        buffered = io.BufferedReader(raw)
        return buffered if 'b' in mode else io.TextIOWrapper(buffered, encoding='utf-8')
    builtins.open = short
    try:
        result = schema.read(path)
    except ValueError as exception:
        result = exception
    finally:
        builtins.open = original
    assert result == value, result
finally:
    shutil.rmtree(scratch)
''','storage which delivers less than was asked for','part of the file is taken for the whole')

bug('C11-quiet-errors','C11',[
('scheme/format.py','''        with open(path) as openfile:
            return format.unserialize(openfile.read(), schema, **params)''','''        try:
            with open(path) as openfile:
                return format.unserialize(openfile.read(), schema, **params)
        except (IOError, OSError):
            # the file can disappear after the check
            if quiet:
                return False
            else:
                raise'''),
],'''
from scheme import *
from scheme.format import Format
import builtins, io

class Device(io.FileIO):
    def readinto(self, buffer):
        raise OSError(5, 'Input/output error')
    def read(self, size=-1):
        raise OSError(5, 'Input/output error')
    def readall(self):
        raise OSError(5, 'Input/output error')

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    Boolean().write(path, True)
    original = builtins.open
    def failing(name, mode='r', *args, **params):
        if str(name) != path:
            return original(name, mode, *args, **params)
        return io.TextIOWrapper(io.BufferedReader(Device(name, 'r')), encoding='utf-8')
    builtins.open = failing
    try:
        value = Boolean().read(path, quiet=True)
    except OSError:
        pass
    else:
        raise AssertionError('read %r' % value)
    finally:
        builtins.open = original
finally:
    shutil.rmtree(scratch)
''','a storage error while an existing file is read in quiet mode','the error turns into a value')

bug('C12-close-after-decode','C12',[
('scheme/format.py','''        with open(path) as openfile:
            return format.unserialize(openfile.read(), schema, **params)''','''        openfile = open(path)
        try:
            content = openfile.read()
        except Exception:
            openfile.close()
            raise
        value = format.unserialize(content, schema, **params)
        openfile.close()
        return value'''),
],'''
from scheme import *
import gc
gc.disable()

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    open(path, 'w').close()
    with open(path, 'w') as openfile:
        openfile.write('{"a": ')
    before = len(os.listdir('/proc/self/fd'))
    for i in range(5):
        try:
            Structure({'a': Integer()}).read(path)
        except ValueError:
            pass
        else:
            raise AssertionError('accepted')
    after = len(os.listdir('/proc/self/fd'))
    assert after <= before, (before, after)
finally:
    shutil.rmtree(scratch)
''','reading a file whose content cannot be decoded','the file stays open')

bug('C12-format-remembered','C12',[
('scheme/format.py','''        if format:
            if format in cls.formats:
                format = cls.formats[format]
            else:
                raise ValueError(format)
        elif cls.name:
            format = cls
        else:
            extension = os.path.splitext(path)[-1].lower()
            if extension in cls.formats:
                format = cls.formats[extension]
            else:
                raise ValueError(format)

        with open(path) as openfile:''','''        if format:
            if format in cls.formats:
                format = cls.formats[format]
            else:
                raise ValueError(format)
        elif cls.name:
            format = cls
        elif path in cls.paths:
            format = cls.paths[path]
        else:
            extension = os.path.splitext(path)[-1].lower()
            if extension in cls.formats:
                format = cls.formats[extension]
            else:
                raise ValueError(format)
        cls.paths[path] = format

        with open(path) as openfile:'''),
('scheme/format.py','''    formats = {}
''','''    formats = {}
    paths = {}
'''),
],'''
from scheme import *

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    schema = Structure({'a': Integer()})
    schema.write(path, {'a': 1}, 'structuredtext')
    try:
        schema.read(path, 'structuredtext')
    except ValidationError:
        pass
    schema.write(path, {'a': 2})
    value = schema.read(path)
    assert value == {'a': 2}, value
finally:
    shutil.rmtree(scratch)
''','reading a path in an explicit format, then reading the same path by its extension','the earlier format is used for the later call')

bug('C13-standard-offset','C13',[
('scheme/fields/datetime.py','''            if value.tzinfo is timezone:
                return value
            else:''','''            if value.tzinfo is timezone:
                return value
            elif timezone is LOCAL and value.utcoffset() == LOCAL.utcoffset(datetime.now()):
                return value.replace(tzinfo=timezone)
            else:'''),
],'''
import time
os.environ['TZ'] = 'CET-1CEST,M3.5.0,M10.5.0/3'
time.tzset()
from scheme import *
from scheme.timezone import FixedOffsetTimezone
from datetime import datetime, timedelta

now = datetime.now()
schema = DateTime()
for month in range(1, 13):
    for offset in (60, 120):
        value = datetime(2024, month, 15, 12, 0, 0, tzinfo=FixedOffsetTimezone(offset, 'x'))
        text = schema.serialize(value)
        expected = (datetime(2024, month, 15, 12, 0, 0) - timedelta(minutes=offset)).strftime('%Y-%m-%dT%H:%M:%SZ')
        assert text == expected, (text, expected)
''','a zone with summer time, a value with the offset which is current now, of the other half of the year','the instant of the value is shifted by the change of the offset')

bug('C13-utc-naive-bounds','C13',[
('scheme/fields/datetime.py','''        super(DateTime, self).__init__(**params)
        if utc:
            self.timezone = UTC
        else:
            self.timezone = LOCAL
''','''        super(DateTime, self).__init__(**params)
        self.timezone = LOCAL
'''),
('scheme/fields/datetime.py','''        self.utc = utc

    def __repr__''','''        self.utc = utc
        if utc:
            self.timezone = UTC

    def __repr__'''),
],'''
import time
os.environ['TZ'] = 'EST5'
time.tzset()
from scheme import *
from datetime import datetime

schema = DateTime(utc=True, minimum=datetime(2024, 1, 1, 12, 0, 0))
assert schema.serialize(datetime(2024, 1, 1, 12, 0, 0)) == '2024-01-01T12:00:00Z'
assert schema.describe()['minimum'] == '2024-01-01T12:00:00Z', schema.describe()
''','a UTC field with a naive bound in a process whose zone is not UTC','the bound is another instant than the one stated')

bug('C14-cached-second','C14',[
('scheme/timezone.py','''    if not isinstance(timezone, tzinfo):
        timezone = UTC
    return datetime.now(timezone)''','''    if not isinstance(timezone, tzinfo):
        timezone = UTC
    now = datetime.now(timezone)
    if now.tzinfo is not UTC:
        return now

    # successive timestamps never run backwards
    latest = _latest[0]
    if latest is None or now > latest:
        latest = _latest[0] = now
    return latest'''),
('scheme/timezone.py','''UTC = FixedOffsetTimezone(0, 'UTC')
''','''UTC = FixedOffsetTimezone(0, 'UTC')
_latest = [None]
'''),
],'''
from scheme import timezone
from datetime import datetime, timedelta

class clock(datetime):
    shown = datetime(2024, 5, 5, 12, 0, 0)
    @classmethod
    def now(cls, tz=None):
        return cls.shown.replace(tzinfo=tz)

timezone.datetime = clock
first = timezone.current_timestamp()
clock.shown -= timedelta(seconds=90)
second = timezone.current_timestamp()
assert second.replace(tzinfo=None) == clock.shown, second
''','a clock which is set back between two timestamps','the timestamp is an instant the clock does not show')

bug('C14-local-wall-time','C14',[
('scheme/timezone.py','''    return datetime.now(timezone)''','''    moment = time.time()
    wall = datetime(*time.localtime(moment)[:6], microsecond=int(moment % 1 * 1000000), tzinfo=LOCAL)
    return wall.astimezone(timezone)'''),
],'''
import time
os.environ['TZ'] = 'EST5EDT,M3.2.0,M11.1.0'
time.tzset()
from scheme import timezone

# 2024-11-03 06:30 UTC is 01:30 standard time, the second time that hour occurs
time.time = lambda: 1730615400.0
value = timezone.current_timestamp()
assert value.timetuple()[:6] == (2024, 11, 3, 6, 30, 0), value
''','the clock in the hour which the local zone repeats at the end of summer time','the timestamp is off by an hour')

bug('C15-first-variant','C15',[
('scheme/fields/structure.py','''            if isinstance(field, Undefined):
                if field.field:
                    field = field.field
                    structure[name] = field
                else:
                    field.register(self._define_undefined_field, [identity, name, field])
                    continue
''','''            if isinstance(field, Undefined):
                if field.field:
                    field = field.field
                    structure[name] = field
                else:
                    if field not in self.awaited:
                        self.awaited.append(field)
                        field.register(self._define_undefined_field, [identity, name, field])
                    continue
'''),
('scheme/fields/structure.py','''        self.key_order = key_order
        self.polymorphic_on = polymorphic_on''','''        self.awaited = []
        self.key_order = key_order
        self.polymorphic_on = polymorphic_on'''),
],'''
from scheme import *

placeholder = Undefined()
schema = Structure({'a': {'x': placeholder}, 'b': {'x': placeholder, 'y': placeholder}}, polymorphic_on='kind')
placeholder.define(Integer())
for value in ({'kind': 'a', 'x': 1}, {'kind': 'b', 'x': 1, 'y': 2}):
    assert schema.process(dict(value)) == value
''','one placeholder used for several members of a structure or in several variants','members beyond the first stay undefined')

bug('C16-negative-cache','C16',[
('scheme/surrogate.py','''        try:
            impl = import_object(token)
        except ImportError:
            return surrogate

        cls.cache[token] = impl
        return impl''','''        try:
            impl = import_object(token)
        except ImportError:
            impl = surrogate

        return cls.cache.setdefault(token, impl)'''),
],'''
from scheme import *
import builtins

scratch = tempfile.mkdtemp()
try:
    with open(os.path.join(scratch, 'demo_things.py'), 'w') as openfile:
        openfile.write("from scheme import *\\nclass thing(surrogate):\\n    schemas = (Structure({'a': Integer()}),)\\n")
    sys.path.insert(0, scratch)
    original = builtins.__import__
    def unavailable(name, *args, **params):
        if name == 'demo_things':
            raise ImportError('temporarily unavailable')
        return original(name, *args, **params)
    builtins.__import__ = unavailable
    Surrogate().unserialize({'_': 'demo_things.thing', 'a': 1})
    builtins.__import__ = original
    value = Surrogate().unserialize({'_': 'demo_things.thing', 'a': 1})
    assert type(value).__name__ == 'thing', type(value)
finally:
    shutil.rmtree(scratch)
''','an import that fails once','the failure is remembered')

bug('C16-identity-by-name','C16',[
('scheme/util.py','''    for attr, value in list(module.__dict__.items()):
        if value is obj:''','''    for attr, value in list(module.__dict__.items()):
        if value is obj or (attr == getattr(obj, '__name__', None) and callable(value)):'''),
],'''
from scheme import *
import types

module = types.ModuleType('demo_functions')
sys.modules['demo_functions'] = module
exec("""
def plain(value):
    return value
def wrapped(value):
    return -value
wrapped.__name__ = 'plain'
""", module.__dict__)
field = Object()
for function in (module.plain, module.wrapped):
    reference = field.serialize(function)
    assert field.unserialize(reference) is function, reference
''','a function which carries the name of another function of its module, as decorators leave it','its reference denotes the other function')

bug('C17-key-order','C17',[
('scheme/fields/structure.py','''        for name in key_order:
            field = definition[name]
            if name in names:''','''        if partial or len(names) <= len(definition) // 2:
            key_order = [name for name in names if name in definition] + [
                name for name in key_order if name not in names]

        for name in key_order:
            field = definition[name]
            if name in names:'''),
],'''
from scheme import *

schema = Structure(dict((n, Integer()) for n in 'abcdef'), key_order='f e d c b a')
for order in ('ab', 'ba'):
    value = dict((n, 1) for n in order)
    assert list(schema.process(value)) == ['b', 'a'], list(schema.process(value))
''','a value with at most half of the members of an ordered structure','its members come in the order of the value or of a set')

bug('C18-shared-implementations','C18',[
('scheme/element.py','''            if schema.polymorphic:
                element.__polymorphic_on__ = schema.polymorphic_on.name
                element.__polymorphic_impl__ = {}''','''            if schema.polymorphic:
                element.__polymorphic_on__ = schema.polymorphic_on.name
                element.__polymorphic_impl__ = metatype.implementations.setdefault(name, {})'''),
('scheme/element.py','''class ElementMeta(type):
''','''class ElementMeta(type):
    implementations = {}

'''),
],'''
from scheme import *
from scheme.element import Element

def declare():
    class Shape(Element):
        schema = Structure({'circle': {'r': Integer()}, 'box': {'w': Integer()}}, polymorphic_on='kind')
    class Circle(Shape):
        polymorphic_identity = 'circle'
    return Shape, Circle

Shape1, Circle1 = declare()
value = Circle1(kind='circle', r=1)
Shape2, Circle2 = declare()
again = Shape1.unserialize(value.serialize())
assert type(again) is Circle1, type(again)
''','two polymorphic element classes of the same name in different modules','an object is read back as an instance of the other class')

bug('C18-construct-in-place','C18',[
('scheme/surrogate.py','''            if isinstance(value, dict):
                value = dict(value)
                if effective_schema:
                    value = effective_schema.extract(value)''','''            if isinstance(value, dict):
                if effective_schema:
                    value = effective_schema.extract(value)
                elif params or type(value) is not dict:
                    value = dict(value)'''),
('scheme/surrogate.py','''    def __init__(self, value, schema=None, version=None):
        super(surrogate, self).__init__(value)''','''    def __init__(self, value, schema=None, version=None):
        super(surrogate, self).__init__(value)
        self.origin = value'''),
('scheme/surrogate.py','''        value = dict(self)
        if self.schema:
            value = self.schema.serialize(value)
            value['__schema__'] = self.schema.describe()''','''        value = dict(self)
        if self.schema:
            value = self.schema.serialize(value)
            value['__schema__'] = self.schema.__dict__.setdefault('description', self.schema.describe())'''),
],'''
from scheme import *

schema = Structure({'a': Integer()})
one = surrogate.construct(value={'a': 1}, schema=schema)
first = one.serialize()
first['__schema__']['structure']['a']['required'] = True
two = surrogate.construct(value={}, schema=schema)
again = Surrogate().unserialize(two.serialize())
assert dict(again) == {}, again
''','changing the serialized form of a surrogate with a dynamic schema in place, then serializing another one with that schema','the later surrogate is serialized with the changed schema')

bug('C15-define-twice-dropped','C15',[
('scheme/fields/structure.py','''            if name in self.structure:
                del self.structure[name]''','''            if name in self.structure:
                field = self.structure.pop(name)
                if isinstance(field, Undefined):
                    # nothing is left to be defined
                    del field.callbacks[:]'''),
],'''
from scheme import *

placeholder = Undefined()
one = Structure({'a': placeholder, 'b': Text()})
two = Structure({'a': placeholder, 'b': Text()})
one.remove('a')
placeholder.define(Integer())
assert two.process({'a': 1, 'b': 'x'}) == {'a': 1, 'b': 'x'}
''','a placeholder shared by two structures of which the first one has lost the member before the definition','the definition never reaches the second structure')

bug('C17-csv-columns','C17',[
('scheme/formats/csv.py','''        if not columns:
            columns = sorted(structure.structure.keys())
''','''        if not columns:
            columns = sorted(structure.structure.keys())
            if len(columns) > len(value) * 3:
                # leave out columns without any value
                present = set()
                for item in value:
                    present.update(item)
                columns = [column for column in present if column in structure.structure]
'''),
],'''
from scheme import *

schema = Sequence(Structure(dict((n, Integer()) for n in ('aa', 'bb', 'cc', 'dd', 'ee'))))
texts = set(Csv.serialize([dict((n, 1) for n in names)], schema)
    for names in (('aa', 'bb', 'cc'), ('cc', 'bb', 'aa'), ('bb', 'cc', 'aa')))
assert len(texts) == 1, texts
''','a table with more columns than it has cells to fill them, whose rows are enumerated in different orders','the columns of the document come in varying order')
