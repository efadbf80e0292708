"""Instrumented loading of the library under test, and pristine "worlds".

Every run executes the source files found in /repo/scheme at that moment.  The
files are parsed, a scheduling point is inserted before every statement and
after every attribute load, subscript load and call inside every function body,
and the result is compiled once per process.  A World is a fresh execution of
those code objects: all classes, registries and module level caches are new, so
no run can see what another one left behind.  Nothing in /repo is changed.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys
import types

from dst import orders, sched

REPO = os.environ.get('DST_REPO') or '/repo'     # DST_REPO: only for trying planted bugs in scratch copies
HERE = os.path.dirname(os.path.abspath(__file__))
S_NAME = '__dst_s__'
V_NAME = '__dst_v__'
O_NAME = '__dst_o__'
W_NAME = '__dst_w__'

MUTATORS = {'append', 'add', 'update', 'pop', 'popitem', 'setdefault', 'clear', 'extend', 'insert', 'remove', 'discard',
    'difference_update', 'intersection_update', 'symmetric_difference_update', 'sort', 'reverse', 'appendleft', 'popleft',
    'extendleft', 'rotate', 'move_to_end', 'write', 'truncate', 'seek', '__setitem__', '__delitem__', '__setattr__'}


class Sites(object):
    """Numbers scheduling points; the description is only used in reports."""

    def __init__(self):
        self.descriptions = []

    def new(self, filename, node):
        self.descriptions.append((filename, getattr(node, 'lineno', 0)))
        return len(self.descriptions) - 1

    def describe(self, site):
        if site is None or site < 0 or site >= len(self.descriptions):
            return '(harness)'
        f, line = self.descriptions[site]
        return '%s:%d' % (f, line)


SITES = Sites()


class Instrumenter(ast.NodeTransformer):
    def __init__(self, filename):
        self.filename = filename
        self.depth = 0
        self.globals = []

    # -- scopes
    def _function(self, node):
        # decorators, defaults and annotations belong to the enclosing scope
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth += 1
        names = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Global):
                names.update(n.names)
        self.globals.append(names)
        body, head = list(node.body), []
        if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                and isinstance(body[0].value.value, str)):
            head.append(body.pop(0))
        node.body = head + self._block(body)
        self.depth -= 1
        self.globals.pop()
        if not node.body:
            node.body = [ast.Pass()]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = depth
        return node

    # -- statements
    def _block(self, stmts):
        out = []
        for stmt in stmts:
            if not isinstance(stmt, (ast.Global, ast.Nonlocal)):
                call = ast.Expr(ast.Call(func=ast.Name(id=S_NAME, ctx=ast.Load()),
                    args=[ast.Constant(value=SITES.new(self.filename, stmt))], keywords=[]))
                out.append(ast.fix_missing_locations(ast.copy_location(call, stmt)))
            targets = stmt.targets if isinstance(stmt, ast.Assign) else [stmt.target] if isinstance(stmt, ast.AugAssign) else []
            touched = self.globals and any(isinstance(t, ast.Name) and t.id in self.globals[-1] for t in targets)
            out.append(self.visit(stmt))
            if touched:
                space = ast.Call(func=ast.Name(id='globals', ctx=ast.Load()), args=[], keywords=[])
                out.append(ast.fix_missing_locations(ast.copy_location(ast.Expr(self._written(space, stmt)), stmt)))
        return out

    def generic_visit(self, node):
        if self.depth and not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            for name in ('body', 'orelse', 'finalbody'):
                block = getattr(node, name, None)
                if isinstance(block, list) and block and isinstance(block[0], ast.stmt):
                    setattr(node, name, _Done(self._block(block)))
        for field, old in ast.iter_fields(node):
            if isinstance(old, _Done):
                setattr(node, field, list(old))
            elif isinstance(old, list):
                new = []
                for value in old:
                    if isinstance(value, ast.AST):
                        value = self.visit(value)
                        if value is None:
                            continue
                        elif not isinstance(value, ast.AST):
                            new.extend(value)
                            continue
                    new.append(value)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    # -- expressions
    def _wrap(self, node, origin, site=None):
        if not self.depth:
            return node
        call = ast.Call(func=ast.Name(id=V_NAME, ctx=ast.Load()),
            args=[node, ast.Constant(value=SITES.new(self.filename, origin) if site is None else site)], keywords=[])
        return ast.fix_missing_locations(ast.copy_location(call, origin))

    def _written(self, node, origin, site=None):
        if not self.depth:
            return node
        call = ast.Call(func=ast.Name(id=W_NAME, ctx=ast.Load()),
            args=[node, ast.Constant(value=SITES.new(self.filename, origin) if site is None else site)], keywords=[])
        return ast.fix_missing_locations(ast.copy_location(call, origin))

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._wrap(node, node)
        node.value = self._written(node.value, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._wrap(node, node)
        node.value = self._written(node.value, node)
        return node

    def visit_Call(self, node):
        site = None
        if isinstance(node.func, ast.Attribute):
            # keep obj.method(...) one step up to the call itself
            changes = node.func.attr in MUTATORS
            plain = not (isinstance(node.func.value, ast.Call) and isinstance(node.func.value.func, ast.Name))
            node.func.value = self.visit(node.func.value)
            if changes and plain:
                site = SITES.new(self.filename, node)
                node.func.value = self._written(node.func.value, node, site)
        else:
            node.func = self.visit(node.func)
        args = []
        for arg in node.args:
            args.append(self.visit(arg))
        node.args = args
        for keyword in node.keywords:
            keyword.value = self.visit(keyword.value)
        if isinstance(node.func, ast.Name) and node.func.id in ('setattr', 'delattr') and args \
                and not isinstance(args[0], ast.Starred):
            args[0] = self._written(args[0], node)
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars'):
            return node
        return self._wrap(node, node, site)

    def _collection(self, node):
        self.generic_visit(node)
        call = ast.Call(func=ast.Name(id=O_NAME, ctx=ast.Load()), args=[node], keywords=[])
        return ast.fix_missing_locations(ast.copy_location(call, node))

    visit_Set = _collection
    visit_SetComp = _collection

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        node.value = self._wrap(node.value, node)
        return node


class _Done(list):
    pass


def compile_file(path, label):
    with open(path, 'rb') as f:
        source = f.read()
    tree = ast.parse(source, path)
    tree = Instrumenter(label).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


def compile_plain(path):
    with open(path, 'rb') as f:
        return compile(f.read(), path, 'exec', dont_inherit=True)


class Library(object):
    """The code of one source tree, compiled once."""

    def __init__(self, repo=REPO, package='scheme'):
        self.package = package
        self.code = {}
        self.files = {}
        root = os.path.join(repo, package)
        found = []
        for base, dirs, names in os.walk(root):
            dirs.sort()
            if os.path.relpath(base, root).split(os.sep)[0] == 'doc':
                continue
            for name in sorted(names):
                if name.endswith('.py'):
                    found.append(os.path.join(base, name))
        for path in sorted(found):
            rel = os.path.relpath(path, repo)
            mod = rel[:-3].replace(os.sep, '.')
            if mod.endswith('.__init__'):
                mod = mod[:-9]
            self.code[mod] = compile_file(path, rel)
            self.files[mod] = path
        for mod in ('dstapp', 'dstapp_late', 'dstapp_extra', 'dstapp_pack', 'dstapp_pack.sub', 'dstapp_pack.other'):
            path = os.path.join(HERE, 'app', mod.replace('.', os.sep))
            path = os.path.join(path, '__init__.py') if os.path.isdir(path) else path + '.py'
            self.code[mod] = compile_file(path, mod)
            self.files[mod] = path


LIBRARY = None
ACTIVE = None       # the active World


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if LIBRARY is None or name not in LIBRARY.code:
            return None
        if name.startswith('dstapp') and ACTIVE is not None and ACTIVE.import_hook is not None:
            ACTIVE.import_hook(name)
        f = LIBRARY.files[name]
        spec = importlib.machinery.ModuleSpec(name, self, origin=f,
            is_package=f.endswith('__init__.py'))
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        module.__file__ = LIBRARY.files[name]
        module.__dict__[S_NAME] = sched.S
        module.__dict__[V_NAME] = sched.V
        module.__dict__[W_NAME] = sched.W
        module.__dict__[O_NAME] = orders.made
        if name.startswith('scheme'):
            orders.shadow(module.__dict__)
        run = sched.CURRENT[0]
        if run is not None and run.cur is not None:
            with run.atomic():
                exec(LIBRARY.code[name], module.__dict__)
        else:
            exec(LIBRARY.code[name], module.__dict__)
        if FAST[0] is None and name.startswith('scheme'):
            ORDER.append(name)


FINDER = Finder()


def load_library(repo=REPO):
    global LIBRARY
    LIBRARY = Library(repo)
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    return LIBRARY


def _ours(name):
    return name == 'scheme' or name.startswith('scheme.') or name.startswith('dstapp')


ORDER = []          # modules in the order in which their execution finished, first time
FAST = [None]       # whether worlds can be made by executing modules in that order


class World(object):
    """A fresh instance of every module of the library."""

    def __init__(self):
        global ACTIVE
        self.import_hook = None
        ACTIVE = self
        for name in [n for n in sys.modules if _ours(n)]:
            del sys.modules[name]
        if FAST[0] is None:
            del ORDER[:]
            self._import()
            slow = self._shape()
            for name in [n for n in sys.modules if _ours(n)]:
                del sys.modules[name]
            try:
                self._execute()
                FAST[0] = self._shape() == slow
            except Exception:
                FAST[0] = False
            if not FAST[0]:
                for name in [n for n in sys.modules if _ours(n)]:
                    del sys.modules[name]
                self._import()
        elif FAST[0]:
            self._execute()
        else:
            self._import()
        self.scheme = sys.modules['scheme']

    def _import(self):
        for name in ['scheme'] + [n for n in LIBRARY.code if n.startswith('scheme.')]:
            __import__(name)

    def _execute(self):
        modules = sys.modules
        for name in ORDER:
            module = types.ModuleType(name)
            d = module.__dict__
            f = LIBRARY.files[name]
            spec = importlib.machinery.ModuleSpec(name, FINDER, origin=f,
                is_package=f.endswith('__init__.py'))
            d['__spec__'] = spec
            d['__loader__'] = FINDER
            d['__file__'] = f
            if spec.submodule_search_locations is not None:
                d['__path__'] = []
                d['__package__'] = name
            else:
                d['__package__'] = name.rpartition('.')[0]
            d[S_NAME] = sched.S
            d[V_NAME] = sched.V
            d[W_NAME] = sched.W
            d[O_NAME] = orders.made
            orders.shadow(d)
            modules[name] = module
        for name in ORDER:
            exec(LIBRARY.code[name], modules[name].__dict__)
            parent, _, child = name.rpartition('.')
            if parent:
                modules[parent].__dict__.setdefault(child, modules[name])

    @staticmethod
    def _shape():
        shape = {}
        for name, module in sys.modules.items():
            if _ours(name):
                shape[name] = sorted('%s:%s' % (k, type(v).__name__)
                    for k, v in module.__dict__.items() if not k.startswith('__') and k != '@py_builtins')
        return shape

    def mod(self, name):
        return sys.modules[name]

    @property
    def app(self):
        return __import__('dstapp')
