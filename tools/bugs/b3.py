bug('C04-interpolator-dropped','C04',[
('scheme/fields/map.py','''                interpolation[key] = definition.interpolate(value, parameters, interpolator)''','''                interpolation[key] = definition.interpolate(value, parameters)'''),
],'''
from scheme import *
from scheme.interpolation import Interpolator

mine = Interpolator(globals={'who': 'mine'}, filters={'shout': lambda v: v.upper()})
schema = Map(Structure({'a': Text()}))
assert schema.interpolate({'k': {'a': '${who|shout}'}}, {}, mine) == {'k': {'a': 'MINE'}}
''','an interpolator of the caller and a template inside a map','templates inside maps are rendered by the default interpolator')

bug('C04-surrogate-interpolator','C04',[
('scheme/surrogate.py','''        value = schema.interpolate(value, parameters, interpolator)
        cls.contribute(value, None)''','''        value = schema.interpolate(value, parameters)
        cls.contribute(value, None)'''),
],'''
from scheme import *
from scheme.interpolation import Interpolator

mine = Interpolator(globals={'who': 'mine'})
value = {'_': 'scheme.surrogate.surrogate', '__schema__': Structure({'a': Text()}).describe(), 'a': '${who}'}
assert Surrogate().interpolate(value, {}, mine) == {'a': 'mine'}
''','an interpolator of the caller and a surrogate with a dynamic schema','templates of such surrogates are rendered by the default interpolator')

bug('C02-shared-ancestry','C02',[
('scheme/fields/sequence.py','''        sequence = []
        for i, subvalue in enumerate(value):
            try:
                sequence.append(item.process(subvalue, phase, serialized, ancestry + ['[%s]' % i]))''','''        sequence = []
        location = ancestry + [None]
        for i, subvalue in enumerate(value):
            location[-1] = '[%s]' % i
            try:
                sequence.append(item.process(subvalue, phase, serialized, location))'''),
],'''
from scheme import *

try:
    Sequence(Integer(), name='s').process([1, 'x', 2, 'y', 3])
except ValidationError as exception:
    text = str(exception)
    assert 's[1]' in text and 's[3]' in text, text
else:
    raise AssertionError('accepted')
''','a failing item of a sequence which is not the last item','the report gives the position of a later item')

bug('C02-merged-list','C02',[
('scheme/exceptions.py','''        self.errors.extend(exception.errors)
        return self''','''        if self.errors:
            self.errors.extend(exception.errors)
        else:
            self.errors = exception.errors
        return self'''),
],'''
from scheme import *

def fail(field, value):
    try:
        field.process(value)
    except ValidationError as exception:
        return exception

one, two = fail(Integer(name='one'), 'x'), fail(Integer(name='two'), 'y')
own = StructuralError()
own.merge(one)
own.merge(two)
assert len(one.serialize()[0]) == 1, one.serialize()
assert len(own.serialize()[0]) == 2
''','a caller collecting several reports in one of its own that was empty','the first report gains the entries of the later ones')

bug('C12-extension-wins','C12',[
('scheme/format.py','''        elif cls.name:
            format = cls
        else:
            extension = os.path.splitext(path)[-1].lower()
            if extension in cls.formats:
                format = cls.formats[extension]
            else:
                raise ValueError(format)

        content''','''        else:
            extension = os.path.splitext(path)[-1].lower()
            if extension in cls.formats:
                format = cls.formats[extension]
            elif cls.name:
                format = cls
            else:
                raise ValueError(format)

        content'''),
],'''
from scheme import *

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'list.csv')
    Json.write(path, [1, 2])
    assert open(path).read() == '[1, 2]'
except ValueError as exception:
    raise AssertionError(exception)
finally:
    shutil.rmtree(scratch)
''','a write through a format class to a file whose extension belongs to another format','the file is written in the other format, or refused')

bug('C12-partial-file-beside','C12',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        partial = path + '.part'
        with open(partial, 'w+') as openfile:
            openfile.write(content)
        os.rename(partial, path)'''),
],'''
from scheme import *
import builtins, io

class Device(io.FileIO):
    def write(self, data):
        raise OSError(28, 'No space left on device')

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    original = builtins.open
    def full(name, mode='r', *args, **params):
        if not str(name).startswith(scratch) or mode == 'r':
            return original(name, mode, *args, **params)
        return io.TextIOWrapper(io.BufferedWriter(Device(name, 'w')))
    builtins.open = full
    try:
        Integer().write(path, 5)
    except OSError:
        pass
    finally:
        builtins.open = original
    assert set(os.listdir(scratch)) <= set(['file.json']), os.listdir(scratch)
finally:
    shutil.rmtree(scratch)
''','a storage failure while the document is written','a second file is left behind')

bug('C18-version-one','C18',[
('scheme/surrogate.py','''            if self.version > 1:
                value['__version__'] = self.version''','''            if 1 < self.version < len(self.schemas):
                value['__version__'] = self.version'''),
('scheme/surrogate.py','''        version = value.pop('__version__', 1)
''','''        version = value.pop('__version__', None)
        if version is None:
            version = 1
            for i, schema in enumerate(cls.schemas):
                if set(schema.structure) == set(value):
                    version = i + 1
'''),
],'''
from scheme import *
import types

module = types.ModuleType('demo_surrogates')
sys.modules['demo_surrogates'] = module

class versioned(surrogate):
    schemas = (Structure({'a': Integer()}), Structure({'a': Integer(), 'b': Text(), 'c': Text()}))
versioned.surrogate = 'demo_surrogates.versioned'
module.versioned = versioned

for version, value in ((1, {'a': 1}), (2, {'a': 1, 'b': 'x', 'c': 'y'}), (2, {'a': 1, 'b': 'x'}), (2, {'a': 1})):
    one = versioned.construct(value=value, version=version)
    two = Surrogate().unserialize(one.serialize())
    assert type(two) is versioned and two.version == version and dict(two) == dict(one), (two, two.version)
''','a surrogate of the latest version without all of its members','it is read back as one of the first version')

bug('C18-element-attrs','C18',[
('scheme/element.py','''        if isinstance(field, Structure):
            return subject.__dict__
        else:''','''        if isinstance(field, Structure):
            values = cls.__attrs__ if not cls.__polymorphic_on__ else {}
            for attr in list(subject.__dict__):
                if attr not in values and not cls.__polymorphic_on__:
                    values[attr] = None
            return subject.__dict__
        else:'''),
],'''
from scheme import *
from scheme.element import Element

class Thing(Element):
    schema = Structure({'a': Integer()}, strict=False)

one = Thing(a=1)
one.note = 'x'
one.serialize()
two = Thing(a=2)
assert sorted(two.__dict__) == ['a'], two.__dict__
''','an object that was given an attribute of its own and then serialized, and one created after it','later objects have the attribute too')

bug('C05-default-per-field','C05',[
('scheme/fields/structure.py','''        default = {}
        for name, field in structure.items():
            value = field.default
            if value is None:
                value = field.constant
            if not sparse or value is not None:''','''        default = {}
        for name, field in structure.items():
            value = field.default
            if value is None:
                value = field.default = field.constant
            if not sparse or value is not None:'''),
],'''
from scheme import *

schema = Structure({'a': Integer(constant=3), 'b': Integer()})
expected = schema.process({'b': 1})
schema.generate_defaults()
assert schema.process({'b': 1}) == expected, schema.process({'b': 1})
''','generating the defaults of a structure which has constants','constants have become defaults')

bug('C05-enumeration-case','C05',[
('scheme/fields/enumeration.py','''        value = interpolate_parameters(subject, parameters, True, interpolator)
        if value in self.enumeration:
            return value''','''        value = interpolate_parameters(subject, parameters, True, interpolator)
        if value in self.enumeration:
            if self.ignored_values:
                self.ignored_values[:] = [v for v in self.ignored_values if v != value]
            return value'''),
],'''
from scheme import *

schema = Enumeration(['a', 'b', ''], ignored_values=['', 'b'])
assert schema.process('b') is None
assert schema.interpolate('${x}', {'x': 'b'}) == 'b'
assert schema.process('b') is None
''','interpolating to a value which is also an ignored one','the value is not ignored any more')

bug('C06-sequence-default','C06',[
('scheme/fields/sequence.py','''            except StructuralError as exception:
                valid = False
                sequence.append(exception)
            except AttributeError:''','''            except StructuralError as exception:
                valid = False
                sequence.append(exception)
                if subvalue is not None and exception.value is not subvalue and serialized:
                    value[i] = exception.value
            except AttributeError:'''),
],'''
from scheme import *

data = ['x', '12', 'y']
schema = Sequence(Union((Integer(), Date())))
schema = Sequence(Date(preprocessor=lambda v: v, minimum='2020-01-01'))
data = ['2019-01-01', '2021-01-01']
before = list(data)
try:
    schema.unserialize(data)
except ValidationError:
    pass
assert data == before, data
''','a serialized item which is converted and then fails validation','the list handed in has the item replaced by its converted value')

bug('C07-replace-origin','C07',[
('scheme/fields/structure.py','''        replacement = self.clone()
        for name, field in structure.items():''','''        replacement = self.clone(structure=dict(self.structure))
        for name, field in structure.items():'''),
],'''
from scheme import *

origin = Structure({'a': Integer(), 's': Structure({'x': Integer()})})
derived = origin.replace({'a': Text()})
derived.structure['s'].insert(Text(name='y', required=True))
assert origin.process({'s': {'x': 1}}) == {'s': {'x': 1}}
''','changing a nested structure of a schema derived by replacing another member','the origin changes with it')

bug('C08-capture-swallows','C08',[
('scheme/fields/map.py','''            except StructuralError as exception:
                valid = False
                map[name] = exception
            except AttributeError:''','''            except StructuralError as exception:
                valid = valid and not exception.substantive and not exception.tracebacks
                map[name] = exception
                if exception.tracebacks and name not in (self.required_keys or (name,)):
                    del map[name]
                    valid = True
            except AttributeError:'''),
],'''
from scheme import *

def broken(value):
    raise ValueError(value)

schema = Map(Integer(preprocessor=broken), required_keys=['a'])
try:
    value = schema.process({'b': 1})
except ValidationError as exception:
    assert sorted(exception.structure) == ['a', 'b'], exception.structure
schema = Map(Union((Integer(preprocessor=lambda v: v / 0), Text(preprocessor=broken))), required_keys=['a'])
schema = Map(Integer(preprocessor=lambda v: v if v == 1 else broken(v)), required_keys=['a'])
try:
    value = schema.process({'a': 1, 'b': 2})
except ValidationError as exception:
    assert sorted(exception.structure) == ['a', 'b'], exception.structure
else:
    raise AssertionError('accepted as %r' % value)
''','a failing preprocessor below an optional key of a map with required keys','a partial result is returned')

bug('C03-csv-shared-buffer','C03',[
('scheme/formats/csv.py','''        content = StringIO()
        writer = Writer(content, cls.Dialect)
''','''        content = cls.buffer
        writer = Writer(content, cls.Dialect)
'''),
('scheme/formats/csv.py','''                writer.writerow(row)

        return content.getvalue()''','''                writer.writerow(row)

        text = content.getvalue()
        content.seek(0)
        content.truncate()
        return text'''),
('scheme/formats/csv.py','''    name = 'csv'
''','''    name = 'csv'
    buffer = StringIO()
'''),
],'''
from scheme import *

schema = Sequence(Structure({'a': Field()}))
expected = Csv.serialize([{'a': 1}], schema)

class Broken(object):
    def __str__(self):
        raise ValueError('x')
try:
    Csv.serialize([{'a': 1}, {'a': Broken()}], schema)
except ValueError:
    pass
assert Csv.serialize([{'a': 1}], schema) == expected, Csv.serialize([{'a': 1}], schema)
''','an encoding which fails or is interrupted after some rows, or two encodings at once','the next document starts with the rows of the abandoned one')

bug('C01-text-length','C01',[
('scheme/fields/text.py','''        min_length = self.min_length
        if min_length is not None and len(value) < min_length:''','''        self.length = len(value)
        min_length = self.min_length
        if min_length is not None and self.length < min_length:'''),
('scheme/fields/text.py','''        if max_length is not None and len(value) > max_length:''','''        if max_length is not None and self.length > max_length:'''),
],'''
from scheme import *

inside, resume = threading.Event(), threading.Event()

class Stopping(str):
    def __len__(self):
        return str.__len__(self)

schema = Text(max_length=3, strip=False)
results = {}

def tracer(frame, event, arg):
    if frame.f_code.co_name != '_validate_value':
        return tracer
    def local(frame, event, arg):
        if 'max_length' in frame.f_locals:
            inside.set()
            resume.wait(20)
            sys.settrace(None)
            return None
        return local
    return local

def caller(name, value, trace):
    if trace:
        sys.settrace(tracer)
    try:
        results[name] = schema.process(value)
    except ValidationError:
        results[name] = 'refused'
    finally:
        sys.settrace(None)

one = threading.Thread(target=caller, args=('one', 'abcdef', True))
one.start()
assert inside.wait(20)
two = threading.Thread(target=caller, args=('two', 'ab', False))
two.start()
two.join()
resume.set()
one.join()
assert results == {'one': 'refused', 'two': 'ab'}, results
''','two threads validating texts of different lengths through one field, switched between the two length checks','a text is judged by the length of the other one')

bug('C10-empty-skipped','C10',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        with open(path, 'w+' if content else 'a+') as openfile:
            openfile.write(content)'''),
],'''
from scheme import *

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.txt')
    Text().write(path, 'before', 'structuredtext')
    Text().write(path, '', 'structuredtext')
    with open(path) as openfile:
        assert openfile.read() == ''
finally:
    shutil.rmtree(scratch)
''','writing a document that renders as nothing over an existing file','the file keeps its previous content although the write returned')

bug('C13-day-apart','C13',[
('scheme/fields/datetime.py','''                return value
            else:
                return value.astimezone(timezone)''','''                return value
            elif timezone is UTC:
                return (value - self._get_shift(value.utcoffset())).replace(tzinfo=timezone)
            else:
                return value.astimezone(timezone)'''),
('scheme/fields/datetime.py','''    def _normalize_value(self, value):
''','''    def _get_shift(self, offset):
        shifts = self.__dict__.setdefault('shifts', {})
        return shifts.setdefault(offset.seconds, offset)

    def _normalize_value(self, value):
'''),
],'''
from scheme import *
from scheme.timezone import FixedOffsetTimezone
from datetime import datetime

schema = DateTime(utc=True)
west = datetime(2024, 1, 1, 12, 0, tzinfo=FixedOffsetTimezone(-720, 'w'))
east = datetime(2024, 1, 1, 12, 0, tzinfo=FixedOffsetTimezone(720, 'e'))
assert schema.process(west, 'outbound', True) == '2024-01-02T00:00:00Z'
assert schema.process(east, 'outbound', True) == '2024-01-01T00:00:00Z', schema.process(east, 'outbound', True)
''','values with offsets a day apart (12 hours west and 12 hours east) through one field','the later instant is off by a day')

bug('C14-zone-names','C14',[
('scheme/timezone.py','''    if not isinstance(timezone, tzinfo):
        timezone = UTC
    return datetime.now(timezone)''','''    if not isinstance(timezone, tzinfo):
        timezone = UTC
    if timezone is UTC:
        return datetime.utcfromtimestamp(int(time.time())).replace(tzinfo=UTC,
            microsecond=datetime.now().microsecond)
    return datetime.now(timezone)'''),
],'''
from scheme import timezone
from datetime import datetime
import types

# the clock passes a full second between two readings
instants = [1000000000.999999, 1000000001.000001]
readings = list(instants)
def read():
    return readings.pop(0) if len(readings) > 1 else readings[0]

class clock(datetime):
    @classmethod
    def now(cls, tz=None):
        return datetime.fromtimestamp(read(), tz)

timezone.time = types.SimpleNamespace(time=read, localtime=timezone.time.localtime, tzname=timezone.time.tzname)
timezone.datetime = clock
value = timezone.current_timestamp()
shown = [datetime.fromtimestamp(i, timezone.UTC) for i in instants]
assert shown[0] <= value <= shown[1], value
''','a clock which passes a full second between two readings','the timestamp is an instant up to a second before any the clock showed')

bug('C17-required-keys','C17',[
('scheme/fields/map.py','''            for name in self.required_keys:
                if name not in map:
                    valid = False
                    map[name] = ValidationError(identity=ancestry, field=self).construct(
                        'required', name=name)''','''            missing = set(self.required_keys).difference(map)
            for name in sorted(missing)[:3] if len(missing) < 4 else list(missing)[:3]:
                valid = False
                map[name] = ValidationError(identity=ancestry, field=self).construct(
                    'required', name=name)'''),
],'''
from scheme import *

def failures(keys):
    try:
        Map(Integer(), required_keys=keys).process({})
    except ValidationError as exception:
        return frozenset(exception.structure)

results = set(failures(keys) for keys in (list('abcdef'), list('fedcba')))
assert len(results) == 1, results
''','a map that misses more than three of its required keys','which failures are reported depends on the order of a set')
