bug('C01-sequence-scratch','C01',[
('scheme/fields/sequence.py','''        sequence = []
        for i, subvalue in enumerate(value):
            try:
                sequence.append(item.process''','''        sequence = self.scratch = []
        for i, subvalue in enumerate(value):
            sequence = self.scratch
            try:
                sequence.append(item.process'''),
],'''
from scheme import *

first_in, second_done = threading.Event(), threading.Event()

def slow(value):
    if value == 1:
        first_in.set()
        second_done.wait(20)
    return value

schema = Sequence(Integer(preprocessor=slow))
results = {}

def caller(name, value):
    try:
        results[name] = schema.process(value)
    except Exception as exception:
        results[name] = exception

one = threading.Thread(target=caller, args=('one', [1, 2, 3]))
one.start()
first_in.wait(20)
two = threading.Thread(target=caller, args=('two', [4, 5]))
two.start()
two.join()
second_done.set()
one.join()
print(results)
assert results == {'one': [1, 2, 3], 'two': [4, 5]}, results
''','two threads inside the same Sequence field at once, one of them between two items','the items of one caller end up in the list of the other one')

bug('C01-polymorphic-definition','C01',[
('scheme/fields/structure.py','''            definition = self.structure.get(identity)
            if not definition:
                raise ValidationError(identity=ancestry, field=self,
                    value=identity).construct('unrecognized')
''','''            definition = self.variant = self.structure.get(identity)
            if not definition:
                raise ValidationError(identity=ancestry, field=self,
                    value=identity).construct('unrecognized')
            definition = self.variant
'''),
],'''
from scheme import *

# stop the first caller between choosing its variant and reading it
inside, resume = threading.Event(), threading.Event()
from scheme.fields import structure as module

schema = Structure({'a': {'x': Integer()}, 'b': {'y': Text()}}, polymorphic_on='kind')
results = {}

def tracer(frame, event, arg):
    if frame.f_code.co_name != 'process' or not isinstance(frame.f_locals.get('self'), Structure):
        return None
    state = {}
    def local(frame, event, arg):
        definition = frame.f_locals.get('definition')
        if not state and definition is schema.structure['a']:
            state['stopped'] = True
            inside.set()
            resume.wait(20)
        return local
    return local

def caller(name, value, trace):
    if trace:
        sys.settrace(tracer)
    try:
        results[name] = schema.process(value)
    except Exception as exception:
        results[name] = str(exception)
    finally:
        sys.settrace(None)

one = threading.Thread(target=caller, args=('one', {'kind': 'a', 'x': 1}, True))
one.start()
assert inside.wait(20)
two = threading.Thread(target=caller, args=('two', {'kind': 'b', 'y': 'z'}, False))
two.start()
two.join()
resume.set()
one.join()
print(results)
assert results == {'one': {'kind': 'a', 'x': 1}, 'two': {'kind': 'b', 'y': 'z'}}, results
''','two threads processing values of different variants of one polymorphic structure, switched between two neighbouring statements','a value is checked against the variant of the other caller')

bug('C02-shared-error','C02',[
('scheme/exceptions.py','''        error = self.field.errors[error]
        return self.append({'token': error.token, 'title': error.title,
            'message': error.format(self.field, params)})''','''        error = self.field.errors[error]
        if params:
            return self.append({'token': error.token, 'title': error.title,
                'message': error.format(self.field, params)})

        try:
            constructed = self.field.__dict__['_constructed_errors']
        except KeyError:
            constructed = self.field._constructed_errors = {}

        if error.token not in constructed:
            constructed[error.token] = {'token': error.token, 'title': error.title,
                'message': error.format(self.field, params)}
        return self.append(constructed[error.token])'''),
],'''
from scheme import *

schema = Structure({'a': Integer(nonnull=True)})

def fail():
    try:
        schema.process({'a': None})
    except ValidationError as exception:
        return exception
    raise AssertionError('no failure')

clean = fail().serialize()
text = repr(clean)
annotated = fail()
annotated.serialize()[1]['a'][0]['request'] = 17
annotated.structure['a'].errors[0]['message'] = 'seen by support'
assert repr(fail().serialize()) == text, fail().serialize()
assert 'seen by support' not in str(fail())
''','a caller annotating the entries of a report it received, and a later failure of the same kind at the same field','later reports carry the annotation of an earlier one')

bug('C02-traceback-pool','C02',[
('scheme/exceptions.py','''        if self.tracebacks is None:
            self.tracebacks = []

        self.tracebacks.append(format_exc())''','''        if self.tracebacks is None:
            self.tracebacks = []
            if self.field is not None:
                self.tracebacks = self.field.__dict__.setdefault('captured', self.tracebacks)
                del self.tracebacks[:]

        self.tracebacks.append(format_exc())'''),
],'''
from scheme import *

def check(value):
    raise ValueError('refused %r' % value)

schema = Structure({'a': Integer(preprocessor=check)})

def fail(value):
    try:
        schema.process({'a': value})
    except ValidationError as exception:
        return exception
    raise AssertionError('no failure')

first = fail(11)
second = fail(22)
assert 'refused 11' in str(first), str(first)
assert 'refused 22' in str(second), str(second)
''','a report with a captured traceback which is rendered after another failure of the same field','the report shows the traceback of the later failure')

bug('C03-yaml-wrapper','C03',[
('scheme/formats/yaml.py','''            wrapper = TextWrapper(width=cls.line_width, initial_indent=indent,
                subsequent_indent=indent, break_long_words=False,
                replace_whitespace=False, drop_whitespace=False)
''','''            wrapper = cls.wrapper
            wrapper.initial_indent = wrapper.subsequent_indent = indent
'''),
('scheme/formats/yaml.py','''    whitespace = re.compile(r'^\\s*$')
''','''    whitespace = re.compile(r'^\\s*$')
    wrapper = TextWrapper(width=line_width, break_long_words=False, replace_whitespace=False,
        drop_whitespace=False)
'''),
],'''
from scheme.formats import Yaml
from scheme.formats import yaml as module
import textwrap

inside, resume = threading.Event(), threading.Event()
long = ' '.join('word%d' % i for i in range(60))
shallow, deep = {'a': long}, {'a': {'b': {'c': {'d': long}}}}
expected = Yaml.serialize(shallow)
Yaml.serialize(deep)

# the first caller stops just before its text is wrapped
original = textwrap.TextWrapper._split_chunks
def split(self, text):
    if threading.current_thread().name == 'one':
        inside.set()
        resume.wait(20)
    return original(self, text)
textwrap.TextWrapper._split_chunks = split

results = {}
def one():
    results['one'] = Yaml.serialize(shallow)
thread = threading.Thread(target=one, name='one')
thread.start()
assert inside.wait(20)
Yaml.serialize(deep)
resume.set()
thread.join()
assert results['one'] == expected, results['one']
''','two threads rendering long strings at different depths, switched while one of them is being wrapped','a document is indented like the other one, which makes it another document')

bug('C03-structuredtext-structures','C03',[
('scheme/formats/structuredtext.py','''        expr = cls.STRUCTURE_EXPR
        structures = {}
''','''        expr = cls.STRUCTURE_EXPR
        structures = cls.structures
'''),
('scheme/formats/structuredtext.py','''            if count == 0:
                return structures[text]''','''            if count == 0:
                structure = structures[text]
                structures.clear()
                return structure'''),
('scheme/formats/structuredtext.py','''    name = 'structuredtext'
''','''    name = 'structuredtext'
    structures = {}
'''),
],'''
from scheme.formats import StructuredText

expected = StructuredText.unserialize('{a:[1,2],b:||0||}')
for broken in ('{a:[x,y],b', '[[p,q]', '{a:{b:c}'):
    try:
        StructuredText.unserialize(broken)
    except Exception:
        pass
value = StructuredText.unserialize('{a:[1,2],b:||0||}')
assert value == expected, value
assert StructuredText.unserialize('{c:||0||}') == {'c': '||0||'}
''','a decoding that fails part way, followed by one whose text contains what looks like an internal token, or two decodings at once','decoded values contain parts of an earlier or concurrent document')

bug('C04-default-published-early','C04',[
('scheme/interpolation.py','''        if cls.default_interpolator is None:
            cls.default_interpolator = cls()
        return cls.default_interpolator''','''        if cls.default_interpolator is None:
            cls.default_interpolator = cls.__new__(cls)
            cls.default_interpolator.__init__()
        return cls.default_interpolator'''),
],'''
from scheme import *
from scheme import interpolation
import jinja2

inside, resume = threading.Event(), threading.Event()
original = jinja2.Environment.__init__

def init(self, *args, **params):
    if threading.current_thread().name == 'one':
        inside.set()
        resume.wait(20)
    return original(self, *args, **params)

jinja2.Environment.__init__ = init
results = {}

def caller():
    try:
        results[threading.current_thread().name] = Text().interpolate('${x}', {'x': 'y'})
    except Exception as exception:
        results[threading.current_thread().name] = repr(exception)

one = threading.Thread(target=caller, name='one')
one.start()
assert inside.wait(20)
two = threading.Thread(target=caller, name='two')
two.start()
two.join()
resume.set()
one.join()
assert results == {'one': 'y', 'two': 'y'}, results
''','a second caller interpolating while the first one is creating the default interpolator','the second caller gets a half-made interpolator')

bug('C04-functions-linger','C04',[
('scheme/interpolation.py','''        template = self.environment.from_string(subject)
        return template.render(parameters)''','''        for name, value in parameters.items():
            if callable(value) and self.environment.globals.get(name) is None:
                self.environment.globals[name] = value
        template = self.environment.from_string(subject)
        return template.render(parameters)'''),
],'''
from scheme import *

schema = Structure({'a': Text(), 'b': Text()})
first = schema.interpolate({'a': 'x ${one()}'}, {'one': lambda: 1})
second = schema.interpolate({'b': '[${one}]'}, {'two': 2})
assert first == {'a': 'x 1'}, first
assert second == {'b': '[]'}, second
''','an earlier interpolation with a function among its parameters, and a later template naming it without such a parameter','a template uses a parameter of another call')

bug('C05-decimal-texts','C05',[
('scheme/fields/decimal.py','''    def _serialize_value(self, value):
        return str(value)''','''    def _serialize_value(self, value):
        if len(value.as_tuple().digits) < 4:
            return str(value)

        # rendering long coefficients is expensive
        texts = self.__dict__.setdefault('texts', {})
        if value not in texts:
            texts[value] = str(value)
        return texts[value]'''),
],'''
from scheme import *
from decimal import Decimal as D

schema = Decimal()
assert schema.serialize(D('1.12345')) == '1.12345'
assert schema.serialize(D('1.123450')) == '1.123450', schema.serialize(D('1.123450'))
''','serializing two equal decimals of different precision through the same field','the later value is rendered as the earlier one')

bug('C05-sequence-unique','C05',[
('scheme/fields/sequence.py','''        elif self.unique and len(set(sequence)) != len(sequence):''','''        elif self.unique and self._has_duplicates(sequence):'''),
('scheme/fields/sequence.py','''    def transform(self, transformer):''','''    def _has_duplicates(self, sequence, seen=set()):
        for value in sequence:
            if value in seen:
                seen.clear()
                return True
            seen.add(value)
        else:
            seen.difference_update(sequence)
            return False

    def transform(self, transformer):'''),
],'''
from scheme import *

schema = Sequence(Field(), unique=True)
expected = schema.process(['a', 'b'])
try:
    schema.process(['a', 'b', [], 'c'])
except TypeError:
    pass
assert schema.process(['a', 'b']) == expected
''','a value with an unhashable item in a sequence of unique items, followed by a value which shares items with it','valid values are reported as containing duplicates')

bug('C06-surrogate-token','C06',[
('scheme/surrogate.py','''        value = dict(value)
        impl = cls._get_implementation(value.pop('_', None))

        if '__schema__' in value:
            return impl._unserialize_dynamic_surrogate''','''        if '__version__' not in value:
            value = dict(value)
        impl = cls._get_implementation(value.pop('_', None))

        if '__schema__' in value:
            return impl._unserialize_dynamic_surrogate'''),
],'''
from scheme import *
import types

module = types.ModuleType('demo_surrogates')
sys.modules['demo_surrogates'] = module

class versioned(surrogate):
    __module__ = 'demo_surrogates'
    schemas = (Structure({'a': Integer()}), Structure({'a': Integer(), 'b': Text()}))
versioned.__qualname__ = 'versioned'
versioned.surrogate = 'demo_surrogates.versioned'
module.versioned = versioned

for data in ({'_': 'demo_surrogates.versioned', 'a': 1},
        {'_': 'demo_surrogates.versioned', '__version__': 2, 'a': 1, 'b': 'x'}):
    before = dict(data)
    value = Surrogate().unserialize(data)
    assert data == before, data
    assert Surrogate().unserialize(data) == value
''','unserializing a surrogate of a later version','the serialized form handed in loses its type and version, so that it cannot be used again')

bug('C06-describe-pops','C06',[
('scheme/field.py','''    def _construct_parameter(cls, parameter):
        if isinstance(parameter, dict):
            if 'fieldtype' in parameter:
                return Field.reconstruct(parameter)
            else:
                return dict((k, cls._construct_parameter(v)) for k, v in parameter.items())''','''    def _construct_parameter(cls, parameter):
        if isinstance(parameter, dict):
            if 'fieldtype' in parameter:
                return Field.reconstruct(parameter)
            else:
                for k, v in parameter.items():
                    parameter[k] = cls._construct_parameter(v)
                return parameter'''),
],'''
from scheme import *

specification = Structure({'a': Integer(), 'b': Sequence(Text())}, name='s').describe()
before = repr(specification)
field = Field.reconstruct(specification)
assert repr(specification) == before, specification
field.insert(Text(name='later'))
again = Field.reconstruct(specification)
assert 'later' not in again.structure
''','reconstructing a description whose members are held in a dictionary, then using that description again','the description handed in has its members replaced by field objects')

bug('C07-clone-shares-tuples','C07',[
('scheme/field.py','''            if key not in params:
                try:
                    params[key] = deepcopy(value)''','''            if key not in params:
                if isinstance(value, tuple):
                    params[key] = value
                    continue
                try:
                    params[key] = deepcopy(value)'''),
],'''
from scheme import *

origin = Structure({'pair': Tuple((Structure({'x': Integer()}), Text()))})
copied = origin.clone()
origin.structure['pair'].values[0].insert(Text(name='y', required=True))
assert copied.process({'pair': ({'x': 1}, 'z')}) == {'pair': ({'x': 1}, 'z')}
''','changing a structure that is a member of a tuple or union of a cloned schema','clones change with their origin')

bug('C07-remove-stops','C07',[
('scheme/fields/structure.py','''        for name in names:
            if name in self.structure:
                del self.structure[name]''','''        for name in names:
            if name not in self.structure:
                break
            del self.structure[name]'''),
],'''
from scheme import *

schema = Structure({'a': Integer(), 'b': Integer(), 'c': Integer()})
schema.remove('a', 'missing', 'b')
assert sorted(schema.structure) == ['c'], sorted(schema.structure)
''','removing several members of which one is not there','members named after a missing one are kept')

bug('C08-structure-first-failure','C08',[
('scheme/fields/structure.py','''            except StructuralError as exception:
                valid = False
                structure[name] = exception
            except AttributeError:''','''            except StructuralError as exception:
                valid = False
                structure[name] = exception
                if exception.tracebacks:
                    break
            except AttributeError:'''),
],'''
from scheme import *

def broken(value):
    raise ValueError(value)

schema = Structure({'a': Integer(preprocessor=broken), 'b': Integer(), 'c': Integer()})
try:
    schema.process({'a': 1, 'b': 'x', 'c': 'y'})
except ValidationError as exception:
    assert sorted(exception.structure) == ['a', 'b', 'c'], sorted(exception.structure)
    assert [e['token'] for e in exception.structure['b'].errors] == ['invalid']
else:
    raise AssertionError('accepted')
''','a failing preprocessor and another failure in a later member of the same structure','failures elsewhere in the value are not reported')

bug('C08-reentrant-extract','C08',[
('scheme/fields/structure.py','''        if self.extractor:
            try:
                subject = self.extractor(self, subject)
            except Exception:
                raise CannotExtractError('extractor raised exception')

        if isinstance(subject, dict):''','''        if self.extractor and not self.extracting:
            self.extracting = True
            try:
                subject = self.extractor(self, subject)
            except Exception:
                raise CannotExtractError('extractor raised exception')
            finally:
                self.extracting = False

        if isinstance(subject, dict):'''),
],'''
from scheme import *

class Thing(object):
    def __init__(self, name, child=None):
        self.name, self.child = name, child

def extractor(field, subject):
    value = {'name': subject.name}
    if subject.child is not None:
        value['child'] = schema.extract(subject.child)
    return value

schema = Structure({'name': Text(), 'child': Field()}, extractor=extractor)
value = schema.extract(Thing('a', Thing('b')))
assert value == {'name': 'a', 'child': {'name': 'b'}}, value
''','an extractor which uses its own schema for nested objects','the nested extraction skips the extractor and fails')

