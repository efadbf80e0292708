bug('C01-error-params','C01',[
('scheme/field.py','''        if 'values' not in params:
            params['values'] = field.representation
        return self.message % params''','''        if 'values' not in params:
            params['values'] = field.representation
        self.params = params
        return self._render()

    def _render(self):
        return self.message % self.params'''),
],'''
from scheme import *
import scheme.field as module

low, high = Integer(name='low', minimum=10), Integer(name='high', minimum=99)
problems = []
def switch(self=None):
    # the other caller gets its turn between the two statements
    if not busy:
        busy.append(1)
        other = threading.Thread(target=run, args=(high, 5, 'high must be greater then or equal to 99'))
        other.start(); other.join()
busy = []
def run(field, value, wanted):
    try:
        field.process(value)
    except ValidationError as exception:
        message = exception.serialize()[0][0]['message']
        if message != wanted:
            problems.append(message)
class Name(str):
    pass
error = Integer.errors['minimum']
def trace(frame, event, arg):
    if frame.f_code.co_name == '_render':
        switch()
    return None
sys.settrace(trace)
run(low, 1, 'low must be greater then or equal to 10')
sys.settrace(None)
assert not problems, problems
''','two threads failing with the same kind of error, switched between two neighbouring statements','the message names the field and bound of the other failure')

bug('C01-ordered-locks','C01',[
('scheme/fields/structure.py','''        valid = True
        names = set(value.keys())

        identity = None
        definition = self.structure
''','''        with self.guard:
            return self._process_members(value, phase, serialized, ancestry, partial)

    def _process_members(self, value, phase, serialized, ancestry, partial):
        valid = True
        names = set(value.keys())

        identity = None
        definition = self.structure
'''),
('scheme/fields/structure.py','''        self.key_order = key_order
        self.polymorphic_on = polymorphic_on''','''        self.guard = RLock()
        self.key_order = key_order
        self.polymorphic_on = polymorphic_on'''),
('scheme/fields/structure.py','''from scheme.exceptions import *
''','''from threading import RLock

from scheme.exceptions import *
'''),
],'''
from scheme import *

placeholder = Undefined()
left = Structure({'n': Integer(preprocessor=lambda v: pause(v)), 'right': placeholder}, name='left')
right = Structure({'n': Integer(preprocessor=lambda v: pause(v)), 'left': left}, name='right')
placeholder.define(right)
barrier = threading.Barrier(2)
def pause(value):
    try:
        barrier.wait(1)
    except threading.BrokenBarrierError:
        pass
    return value
done = []
def run(field, value):
    field.process(value)
    done.append(1)
member = left.structure['right']
threads = [threading.Thread(target=run, args=args, daemon=True) for args in
    ((left, {'n': 1, 'right': {'n': 2}}), (member, {'n': 1, 'left': {'n': 2}}))]
[t.start() for t in threads]
[t.join(15) for t in threads]
assert len(done) == 2
sys.stdout.flush()
os._exit(0)
''','two threads entering mutually recursive structures from different ends','both wait for ever')

bug('C01-map-key','C01',[
('scheme/fields/map.py','''                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
''','''                    self.pending = key_field.process(name, phase, serialized,
                        ancestry + ['[%s]' % name])
                    name = self.pending
'''),
],'''
from scheme import *

schema = Map(Integer(), key=Integer(), name='m')
busy = []
def trace(frame, event, arg):
    def local(frame, event, arg):
        if event == 'line' and schema.__dict__.get('pending') == 1 and not busy:
            busy.append(1)
            other = threading.Thread(target=lambda: schema.process({'2': 3}, 'inbound', True))
            other.start(); other.join()
        return local
    return local if frame.f_code.co_name == 'process' and frame.f_locals.get('self') is schema else None
sys.settrace(trace)
result = schema.process({'1': 5}, 'inbound', True)
sys.settrace(None)
assert result == {1: 5}, result
''','two threads processing maps with converted keys through one field, switched between two neighbouring statements','a value comes under the key of the other caller')

bug('C02-live-path','C02',[
('scheme/fields/tuple.py','''                sequence.append(field.process(value[i], phase, serialized,
                    ancestry + ['[%s]' % i]))''','''                if i:
                    place[-1] = '[%s]' % i
                sequence.append(field.process(value[i], phase, serialized, place))'''),
('scheme/fields/tuple.py','''        valid = True
        sequence = []
''','''        valid = True
        sequence = []
        place = ancestry + ['[0]']
'''),
],'''
from scheme import *

schema = Tuple((Integer(), Integer(), Integer()), name='t')
try:
    schema.process((1, 'x', 3))
except ValidationError as exception:
    assert 't[1]' in str(exception), str(exception)
else:
    assert False
''','a failing value of a tuple which is not the last one','the report names the place of a later value')

bug('C02-cached-entries','C02',[
('scheme/exceptions.py','''        error = self.field.errors[error]
        return self.append({'token': error.token, 'title': error.title,
            'message': error.format(self.field, params)})''','''        definition = self.field.errors[error]
        if params:
            return self.append({'token': definition.token, 'title': definition.title,
                'message': definition.format(self.field, params)})

        entries = self.field.__dict__.setdefault('_entries', {})
        if error not in entries:
            entries[error] = {'token': definition.token, 'title': definition.title,
                'message': definition.format(self.field, params)}
        return self.append(entries[error])'''),
],'''
from scheme import *

schema = Integer(name='n', nonnull=True)
def fail():
    try:
        schema.process('x')
    except ValidationError as exception:
        return exception
first = fail()
first.errors[0]['hint'] = 'try a number'
assert 'hint' not in fail().serialize()[0][0]
''','a caller adding to an entry of a report it received, and the same failure again','later reports contain what the caller added')

bug('C03-numbers-setting','C03',[
('scheme/formats/structuredtext.py','''        if not isinstance(value, string):
            raise ValueError(value)
        if value[0] in''','''        if not isinstance(value, string):
            raise ValueError(value)
        cls.parse_numbers = parse_numbers
        if value[0] in'''),
('scheme/formats/structuredtext.py','''        elif not parse_numbers:''','''        elif not cls.parse_numbers:'''),
],'''
from scheme import *
from scheme.formats import StructuredText

busy = []
def trace(frame, event, arg):
    if frame.f_code.co_name == '_unserialize_simple_value' and not busy:
        busy.append(1)
        other = threading.Thread(target=lambda: StructuredText.unserialize('7', parse_numbers=True))
        other.start(); other.join()
    return None
sys.settrace(trace)
result = StructuredText.unserialize('[1,2]')
sys.settrace(None)
assert result == ['1', '2'], result
''','two decodings at once of which one parses numbers','the texts of the other one become numbers, or its numbers stay texts')

bug('C03-xml-parser','C03',[
('scheme/formats/xml.py','''        root = etree.fromstring(value)
        attr, value = cls._unserialize_element(root, schema)
        return value''','''        parser = cls.__dict__.get('parser')
        if parser is None:
            parser = etree.XMLParser()
        cls.parser = None
        try:
            parser.feed(value)
            root, parser = parser.close(), None
        finally:
            cls.parser = parser

        attr, value = cls._unserialize_element(root, schema)
        return value'''),
],'''
from scheme import *

schema = Structure({'a': Text()}, name='root')
assert schema.unserialize('<root><a>x</a></root>', 'xml') == {'a': 'x'}
try:
    schema.unserialize('<root><a>x</root>', 'xml')
except Exception:
    pass
assert schema.unserialize('<root><a>y</a></root>', 'xml') == {'a': 'y'}
''','a decoding that fails, followed by another one','the next document is decoded as the rest of the broken one')

bug('C03-notice','C03',[
('scheme/formats/urlencoded.py','''        return''','''        return'''),
],'''
''','-','-') if False else None

bug('C04-template-cache','C04',[
('scheme/interpolation.py','''        template = self.environment.from_string(subject)
        return template.render(parameters)''','''        template = self.templates.get(subject)
        if template is None:
            template = self.templates[subject] = self.environment.from_string(subject)
        return template.render(parameters)'''),
('scheme/interpolation.py','''    standard_globals = []
''','''    standard_globals = []
    templates = {}
'''),
],'''
from scheme import *
from scheme.interpolation import Interpolator

loud = Interpolator(filters={'say': lambda v: v.upper()})
quiet = Interpolator(filters={'say': lambda v: v.lower()})
field = Text()
assert field.interpolate('${x|say}', {'x': 'Word'}, loud) == 'WORD'
assert field.interpolate('${x|say}', {'x': 'Word'}, quiet) == 'word'
''','the same template through two interpolators','the second caller gets the functions of the first interpolator')

bug('C04-expression-globals','C04',[
('scheme/interpolation.py','''            value = expression(**parameters)
            if''','''            value = self.memo[subject, repr(sorted(parameters))] if (subject,
                repr(sorted(parameters))) in self.memo else expression(**parameters)
            if not parameters:
                self.memo[subject, repr(sorted(parameters))] = value
            if'''),
('scheme/interpolation.py','''        self.environment = jinja2.Environment(''','''        self.memo = {}
        self.environment = jinja2.Environment('''),
],'''
from scheme import *
from scheme.interpolation import Interpolator

count = []
def tick():
    count.append(1)
    return len(count)
interpolator = Interpolator(globals={'tick': tick, 'fresh': lambda: []})
field = Sequence(Integer())
first = interpolator.evaluate('fresh()', {})
first.append(1)
assert interpolator.evaluate('fresh()', {}) == []
''','the same expression twice without parameters','the second caller gets the value of the first one, with what was done to it')

bug('C05-union-memo','C05',[
('scheme/fields/union.py','''        for field in self.fields:
            try:
                return field.process(value, phase, serialized, ancestry)
            except InvalidTypeError:
                pass
''','''        fields = self.fields
        if isinstance(value, (bool, int, float)) and value in self.matches:
            fields = (self.matches[value],) + fields

        for field in fields:
            try:
                processed = field.process(value, phase, serialized, ancestry)
                if isinstance(value, (bool, int, float)):
                    self.matches[value] = field
                return processed
            except InvalidTypeError:
                pass
'''),
('scheme/fields/union.py','''        self.fields = tuple(stack)
        self._await''','''        self.fields = tuple(stack)
        self.matches = {}
        self._await'''),
],'''
from scheme import *

schema = Union((Integer(), Float()))
assert repr(schema.process(1.0)) == '1.0'
assert repr(schema.process(1, 'inbound', True)) == '1', schema.process(1, 'inbound', True)
''','a float and an equal integer through one union','the later value is taken for the other kind')

bug('C05-shared-description','C05',[
('scheme/field.py','''        elif isinstance(parameter, (list, tuple)):
            description = [self._describe_parameter(item) for item in parameter]
            if isinstance(parameter, list):
                return description
            else:
                return tuple(description)
        elif isinstance(parameter, Field):''','''        elif isinstance(parameter, (list, tuple)):
            description = [self._describe_parameter(item) for item in parameter]
            if description == parameter:
                return parameter
            elif isinstance(parameter, list):
                return description
            else:
                return tuple(description)
        elif isinstance(parameter, Field):'''),
],'''
from scheme import *

schema = Enumeration(['a', 'b'], name='e')
schema.describe()['enumeration'].append('c')
try:
    schema.process('c')
except ValidationError:
    pass
else:
    assert False
''','changing a list in a description that was returned','the schema accepts what was added to the description')

bug('C05-strict-off','C05',[
('scheme/fields/structure.py','''        if not isinstance(subject, dict):
            raise CannotInterpolateError('interpolation candidate must be a dict value')
''','''        if not isinstance(subject, dict):
            raise CannotInterpolateError('interpolation candidate must be a dict value')
        if self.polymorphic_on and self.polymorphic_on.name in subject:
            self.last_identity = subject[self.polymorphic_on.name]
        elif self.polymorphic_on and self.__dict__.get('last_identity'):
            subject = dict(subject)
            subject[self.polymorphic_on.name] = self.last_identity
'''),
],'''
from scheme import *

schema = Structure({'a': {'x': Integer()}, 'b': {'x': Text()}}, polymorphic_on='kind')
def attempt():
    try:
        return schema.interpolate({'x': '5'}, {})
    except Exception as exception:
        return type(exception)
before = attempt()
schema.interpolate({'kind': 'a', 'x': '${n}'}, {'n': 1})
assert attempt() == before
''','interpolating a polymorphic value, then one which does not say its identity','the later value is taken for the variant of the earlier one')

bug('C06-columns','C06',[
('scheme/formats/csv.py','''        if not columns:
            columns = sorted(structure.structure.keys())

        cells = []
        for column in columns:
            field = structure.get(column)
            if field and not field.structural:
                cells.append((column, field))
''','''        if not columns:
            columns = sorted(structure.structure.keys())

        for column in list(columns):
            field = structure.get(column)
            if not field or field.structural:
                columns.remove(column)
        cells = [(column, structure.get(column)) for column in columns]
'''),
],'''
from scheme import *

schema = Sequence(Structure({'a': Text(), 'b': Integer()}))
columns = ['b', 'nothing', 'a']
schema.serialize([{'a': 'x', 'b': 1}], 'csv', columns=columns)
assert columns == ['b', 'nothing', 'a'], columns
''','a list of columns of which some cannot be written','the list of the caller loses those columns')

bug('C06-map-in-place','C06',[
('scheme/fields/map.py','''        map = {}
        for name, subvalue in value.items():''','''        # nothing is converted, so there is nothing to collect
        map = value if serialized and phase == INBOUND and not key_field else {}
        for name, subvalue in list(value.items()):'''),
('scheme/fields/map.py','''                if not isinstance(map.get(name), StructuralError):
                    map[name] = item''','''                map[name] = item'''),
],'''
from scheme import *

schema = Map(Integer())
value = {'a': '1', 'b': '2'}
schema.process(value, 'inbound', True)
assert value == {'a': '1', 'b': '2'}, value
''','unserializing a map whose values are converted','the serialized form handed in has its values converted, or replaced by failures')

bug('C07-enumeration-list','C07',[
('scheme/fields/enumeration.py','''        values = []
        for value in baseline + enumeration:
            if value not in values:
                values.append(value)

        self.enumeration = values
''','''        if strategy == 'replace':
            self.enumeration = []
        values = self.enumeration
        for value in enumeration:
            if value not in values:
                values.append(value)

'''),
('scheme/field.py','''        for key, value in self.__dict__.items():
            if key not in params:
                try:
                    params[key] = deepcopy(value)''','''        for key, value in self.__dict__.items():
            if key not in params:
                try:
                    if isinstance(value, list) and all(isinstance(item, string) for item in value):
                        params[key] = value
                    else:
                        params[key] = deepcopy(value)'''),
],'''
from scheme import *

origin = Enumeration(['a', 'b'], name='e')
derived = origin.clone()
derived.redefine(['c'])
try:
    origin.process('c')
except ValidationError:
    pass
else:
    assert False
''','redefining a clone of an enumeration of strings by appending','the origin accepts the new values too')

bug('C07-transform-in-place','C07',[
('scheme/fields/tuple.py','''        transformed = False
        candidates = []

        for i, field in enumerate(self.values):
            candidate = field.transform(transformer)
            if candidate is not field:
                candidates.append(candidate)
                transformed = True
            else:
                candidates.append(field)

        if transformed:
            return self.clone(values=tuple(candidates))
        else:
            return self''','''        candidates = tuple(field.transform(transformer) for field in self.values)
        if all(candidate is field for candidate, field in zip(candidates, self.values)):
            return self

        origin, self.values = self.values, candidates
        try:
            return self.clone(values=candidates)
        finally:
            self.values = origin'''),
],'''
from scheme import *

schema = Tuple((Integer(), Text()))
seen = []
class Watched(Integer):
    def __deepcopy__(self, memo):
        seen.append(schema.process((1, 'x')) == (1, 'x') if busy else None)
        return self.clone()
busy = [1]
result = []
def trace(frame, event, arg):
    if frame.f_code.co_name == 'clone' and frame.f_locals.get('self') is schema and not result:
        def use():
            try:
                result.append(schema.process((1, 'x')))
            except Exception as exception:
                result.append(exception)
        other = threading.Thread(target=use)
        other.start(); other.join()
    return None
sys.settrace(trace)
schema.transform(lambda f: Integer() if isinstance(f, Text) else None)
sys.settrace(None)
assert result == [(1, 'x')], result
''','a thread using a tuple while another thread transforms it','values are judged by the transformed fields')

bug('C08-depth-kept','C08',[
('scheme/field.py','''        if value is not None and self.instantiator:
            return self.instantiator(self, value, key)
        else:
            return value''','''        if value is None or not self.instantiator:
            return value
        if self.__dict__.get('instantiating'):
            # the instantiator asks for the value itself
            return value

        self.instantiating = True
        instance = self.instantiator(self, value, key)
        self.instantiating = False
        return instance'''),
],'''
from scheme import *

def make(field, value, key=None):
    if value == 13:
        raise KeyError(value)
    return ('made', value)
schema = Integer(instantiator=make)
try:
    schema.instantiate(13)
except KeyError:
    pass
assert schema.instantiate(5) == ('made', 5)
''','an instantiator which fails once','later values are not instantiated any more')

bug('C08-transform-errors','C08',[
('scheme/fields/map.py','''        candidate = self.value.transform(transformer)
        if candidate is self.value:''','''        try:
            candidate = self.value.transform(transformer)
        except (AttributeError, TypeError):
            # undefined
            candidate = self.value
        if candidate is self.value:'''),
],'''
from scheme import *

def fail(field):
    if isinstance(field, Integer):
        raise TypeError('no')
schema = Map(Sequence(Integer()))
try:
    schema.transform(fail)
except TypeError:
    pass
else:
    assert False
''','a transformer failing with a type error below a map','the failure does not reach the caller')

bug('C09-busy-flag','C09',[
('scheme/fields/map.py','''        definition = self.value
        extraction = {}

        for key, value in subject.items():''','''        definition = self.value
        extraction = {}
        self.depth = (self.depth or 0) + 1
        if self.depth > 8:
            raise CannotExtractError('extraction candidate is nested too deeply')

        for key, value in subject.items():'''),
('scheme/fields/map.py','''                if isinstance(definition, Undefined):
                    raise UndefinedFieldError("the 'value' field of this map is undefined")
                else:
                    raise

        return extraction''','''                self.depth -= 1
                if isinstance(definition, Undefined):
                    raise UndefinedFieldError("the 'value' field of this map is undefined")
                else:
                    raise

        self.depth -= 1
        return extraction'''),
],'''
from scheme import *

def interrupt(field, value):
    if value == 13:
        raise KeyboardInterrupt()
    return value
schema = Map(Integer(extractor=interrupt))
for i in range(10):
    try:
        schema.extract({'a': 13})
    except KeyboardInterrupt:
        pass
assert schema.extract({'a': 1}) == {'a': 1}
''','ten interrupted (or eight failed) extractions','later extractions fail')

bug('C09-guard-exception','C09',[
('scheme/surrogate.py','''        try:
            impl = import_object(token)
        except ImportError:
            return surrogate

        cls.cache[token] = impl
        return impl''','''        if token in cls.importing:
            # the module being imported refers to its own surrogates
            return surrogate

        cls.importing[token] = True
        try:
            impl = import_object(token)
        except Exception:
            del cls.importing[token]
            return surrogate

        cls.cache[token] = impl
        del cls.importing[token]
        return impl'''),
('scheme/surrogate.py','''    cache = {}
''','''    cache = {}
    importing = {}
'''),
],'''
from scheme import *
module = sys.modules['scheme.surrogate']

class special(surrogate):
    pass
sys.modules['demo_special'] = sys.modules[__name__]
original = module.import_object
def interrupted(path):
    raise KeyboardInterrupt()
module.import_object = interrupted
try:
    Surrogate().unserialize({'_': 'demo_special.special', 'a': 1})
except KeyboardInterrupt:
    pass
module.import_object = original
value = Surrogate().unserialize({'_': 'demo_special.special', 'a': 1})
assert type(value) is special, type(value)
''','an interrupt while the class of a surrogate is imported','the token resolves to the generic surrogate from then on')

bug('C10-replaced-characters','C10',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        with open(path, 'wb', 0) as openfile:
            openfile.write(content.encode('utf-8'))'''),
],'''
from scheme import *
import builtins, io

class Device(io.FileIO):
    def write(self, data):
        return super(Device, self).write(bytes(data)[:5])

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.txt')
    original = builtins.open
    def slow(name, mode='r', buffering=-1, *args, **params):
        if str(name) != path or mode == 'r':
            return original(name, mode, buffering, *args, **params)
        raw = Device(name, 'w')
        if not buffering:
            return raw
        return io.TextIOWrapper(io.BufferedWriter(raw))
    builtins.open = slow
    try:
        Text().write(path, 'a text of some length', 'structuredtext')
    finally:
        builtins.open = original
    with open(path) as openfile:
        assert openfile.read() == 'a text of some length'
finally:
    shutil.rmtree(scratch)
''','storage that takes less than it was given','the write returns although part of the document is missing')

bug('C10-retry','C10',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        with open(path, 'w+') as openfile:
            for position in range(0, len(content), 65535):
                openfile.write(content[position:position + 65536])'''),
],'''
from scheme import *

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.txt')
    text = 'word ' * 20000
    Text(strip=False).write(path, text, 'structuredtext')
    with open(path) as openfile:
        assert openfile.read() == text
finally:
    shutil.rmtree(scratch)
''','a document of more than 64 KiB','a character is written twice at every 64 KiB')

bug('C11-first-block','C11',[
('scheme/format.py','''            return format.unserialize(openfile.read(), schema, **params)''','''            return format.unserialize(openfile.read(1 << 16), schema, **params)'''),
],'''
from scheme import *

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.txt')
    text = 'word ' * 20000
    with open(path, 'w') as openfile:
        openfile.write(text)
    assert Text(strip=False).read(path, 'structuredtext') == text
finally:
    shutil.rmtree(scratch)
''','a file of more than 64 KiB','the rest of the file is left out')

bug('C11-replacement','C11',[
('scheme/format.py','''        with open(path) as openfile:
            return''','''        with open(path, errors='replace') as openfile:
            return'''),
],'''
from scheme import *

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.txt')
    with open(path, 'wb') as openfile:
        openfile.write(b'caf\\xe9')
    try:
        value = Text().read(path, 'structuredtext')
    except ValueError:
        pass
    else:
        assert False, value
finally:
    shutil.rmtree(scratch)
''','a file which is not in the encoding it is read in','the value contains replacement characters')

bug('C11-resumed','C11',[
('scheme/format.py','''        with open(path) as openfile:
            return format.unserialize(openfile.read(), schema, **params)''','''        with open(path) as openfile:
            try:
                content = openfile.read()
            except (IOError, OSError):
                content = openfile.read()
            return format.unserialize(content, schema, **params)'''),
],'''
from scheme import *
import builtins, io

class Device(io.RawIOBase):
    data = b'a text of some length'
    position = 0
    failed = False
    def readable(self):
        return True
    def readinto(self, buffer):
        if self.position and not self.failed:
            self.failed = True
            raise OSError(5, 'Input/output error')
        data = self.data[self.position:self.position + min(10, len(buffer))]
        buffer[:len(data)] = data
        self.position += len(data)
        return len(data)

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.txt')
    with open(path, 'w') as openfile:
        openfile.write('a text of some length')
    original = builtins.open
    def flaky(name, mode='r', *args, **params):
        if str(name) != path:
            return original(name, mode, *args, **params)
        return io.TextIOWrapper(io.BufferedReader(Device()))
    builtins.open = flaky
    try:
        value = Text().read(path, 'structuredtext')
    except OSError:
        value = None
    finally:
        builtins.open = original
    assert value in (None, 'a text of some length'), value
finally:
    shutil.rmtree(scratch)
''','a storage error after part of the file was read, which does not occur again','the value is made of the rest of the file')

bug('C12-backup','C12',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        backup = None
        if os.path.exists(path):
            backup = os.path.splitext(path)[0] + '.bak'
            os.rename(path, backup)

        with open(path, 'w') as openfile:
            openfile.write(content)
        if backup:
            os.remove(backup)'''),
],'''
from scheme import *

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    with open(os.path.join(scratch, 'file.bak'), 'w') as openfile:
        openfile.write('mine')
    Integer().write(path, 1)
    Integer().write(path, 2)
    assert sorted(os.listdir(scratch)) == ['file.bak', 'file.json'], os.listdir(scratch)
finally:
    shutil.rmtree(scratch)
''','a file beside the written one with the extension .bak, or a storage failure','the other file is lost, or a second file is left behind')

bug('C12-write-open','C12',[
('scheme/format.py','''        with open(path, 'w+') as openfile:
            openfile.write(content)''','''        openfile = open(path, 'w+')
        openfile.write(content)
        openfile.flush()
        openfile.close()'''),
],'''
from scheme import *
import builtins, io

devices = []
class Device(io.FileIO):
    def write(self, data):
        raise OSError(28, 'No space left on device')

scratch = tempfile.mkdtemp()
try:
    path = os.path.join(scratch, 'file.json')
    original = builtins.open
    def full(name, mode='r', *args, **params):
        if str(name) != path:
            return original(name, mode, *args, **params)
        devices.append(Device(name, 'w'))
        return io.TextIOWrapper(io.BufferedWriter(devices[-1]))
    builtins.open = full
    try:
        Integer().write(path, 5)
    except OSError:
        pass
    finally:
        builtins.open = original
    assert devices[0].closed
finally:
    shutil.rmtree(scratch)
''','a storage failure while the document is written','the file stays open')

bug('C13-bounds-texts','C13',[
('scheme/fields/datetime.py','''        if maximum is not None and self._get_instant(value) > self._get_instant(maximum):''','''        if maximum is not None and self._serialize_value(value) > self._serialize_value(maximum):'''),
],'''
from scheme import *
from datetime import datetime

schema = DateTime(maximum=datetime(2020, 1, 1), utc=True)
try:
    schema.process(datetime(2020, 1, 1, 0, 0, 0, 500000))
except ValidationError:
    pass
else:
    assert False
''','a value less than a second after the maximum','the value is accepted')

bug('C15-late-registration','C15',[
('scheme/field.py','''        self.callbacks.append((callback, args))
        if self.field is not None:
            callback(self.field, *args)''','''        if self.field is not None:
            callback(self.field, *args)
        else:
            self.callbacks.append((callback, args))'''),
],'''
from scheme import *

placeholder = Undefined()
busy = []
def trace(frame, event, arg):
    def local(frame, event, arg):
        if event == 'line' and 'append' in source[frame.f_lineno - 1] and not busy:
            busy.append(1)
            other = threading.Thread(target=lambda: placeholder.define(Integer()))
            other.start(); other.join()
        return local
    return local if frame.f_code.co_name == 'register' else None
import scheme.field
with open(scheme.field.__file__) as openfile:
    source = openfile.read().split('\\n')
for attempt in (1, 2):
    del busy[:]
    placeholder = Undefined()
    sys.settrace(trace)
    schema = Sequence(placeholder)
    sys.settrace(None)
if placeholder.field is None:
    placeholder.define(Integer())
assert schema.process([1]) == [1]
''','a schema built in one thread while its placeholder is defined in another one','the definition never reaches the schema')

bug('C17-folded-columns','C17',[
('scheme/formats/csv.py','''            columns = sorted(structure.structure.keys())''','''            columns = sorted(structure.structure.keys(), key=lambda name: name.lower())'''),
],'''
from scheme import *

def table(names):
    return Sequence(Structure(dict((n, Integer()) for n in names))).serialize([{'a': 1, 'A': 2}], 'csv')
assert table(['a', 'A']) == table(['A', 'a'])
''','a table with columns whose names differ only in case','the columns come in the order in which the schema was filled')

bug('C17-xml-members','C17',[
('scheme/formats/xml.py','''                for key, value in sorted(content.items()):
                    subelement = etree.SubElement(element, key)
                    cls._serialize_content(value, subelement, field.value)''','''                for key, value in sorted(content.items(), key=lambda item: len(item[0])):
                    subelement = etree.SubElement(element, key)
                    cls._serialize_content(value, subelement, field.value)'''),
],'''
from scheme import *

schema = Structure({'m': Map(Integer())}, name='root')
first = schema.serialize({'m': dict([('ab', 1), ('cd', 2)])}, 'xml')
assert first == schema.serialize({'m': dict([('cd', 2), ('ab', 1)])}, 'xml')
''','a map with keys of the same length','its members come in the order in which the value was filled')

bug('C18-key-on-class','C18',[
('scheme/element.py','''        if key is not None and cls.key_attr:
            setattr(instance, cls.key_attr, key)''','''        if key is not None and cls.key_attr:
            if not hasattr(type(instance), cls.key_attr):
                setattr(type(instance), cls.key_attr, key)
            if getattr(instance, cls.key_attr) != key:
                setattr(instance, cls.key_attr, key)'''),
],'''
from scheme import *

class Entry(Element):
    key_attr = 'id'
    schema = Structure({'n': Integer()}, name='entry')
Map(Entry.schema).instantiate({'x': {'n': 1}})
assert not hasattr(Entry(n=2), 'id')
''','objects created below a map, then one created on its own','the later object has the key of the first one')

bug('C18-serialized-kept','C18',[
('scheme/surrogate.py','''        value = dict(self)
        if self.schema:''','''        if self.serialized and self.serialized[0] == self:
            return self.serialized[1]

        value = dict(self)
        self.serialized = (dict(self), value)
        if self.schema:'''),
('scheme/surrogate.py','''    schemas = None

    def''','''    schemas = None
    serialized = None

    def'''),
('scheme/surrogate.py','''        value['_'] = self.surrogate
        return value''','''        value['_'] = self.surrogate
        self.serialized = (self.serialized[0], value)
        return value'''),
],'''
from scheme import *

class plain(surrogate):
    pass
object = plain.construct(plain, {'a': 1})
object.serialize()['more'] = 5
assert object.serialize() == {'a': 1, '_': plain.surrogate}, object.serialize()
''','serializing the same object twice, changing the first result','the later serialized form contains the change')
