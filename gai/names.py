"""Whole-package resolution: every name, attribute and argument a function refers to must exist on what it can meet there.

Types are sets of atoms, None stands for 'anything': ('i', class) an instance, ('c', class) the class itself,
('m', module), ('f', function, bound), ('none',), ('list', T), ('dict', K, V), ('tuple', (T, ...)), ('super', class)."""

import ast
import builtins
import collections
import contextlib
import datetime
import glob
import importlib
import inspect
import io
import logging
import os
import re
import string
import subprocess
import sys

from .program import ClassInfo, FuncInfo, ModuleInfo, _dec_name

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__class__', '__annotations__', '__path__', '__package__', '__spec__'}
OTHER = ('other',)
STR = ('str',)
NONE = ('none',)
EMPTY_LIST, EMPTY_DICT = ('list', frozenset()), ('dict', frozenset(), frozenset())
PLAIN_BASES = {'object', 'ABC', 'abc.ABC', 'Generic', 'Protocol', 'typing.Generic', 'typing.Protocol'}
OF_OBJECT = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__mro__', '__bases__', '__subclasses__', '__doc__',
                                '__annotations__', '__slots__', '__weakref__', '__abstractmethods__', '__dataclass_fields__'}
LISTY = {'list', 'tuple', 'sorted', 'reversed', 'set', 'frozenset', 'iter'}
DEPTH = 40


def _fn_nodes(fn):
    """nodes of the function itself, not of what is nested in it (comprehensions included)"""
    todo = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def _targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from _targets(e)
    elif isinstance(t, ast.Starred):
        yield from _targets(t.value)


class Libraries:
    """the source of what the package imports: which names its modules bind, which words occur in it"""

    def __init__(self, root):
        self.paths = sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + [p for p in sys.path if p.endswith('-packages')] + \
            [os.path.dirname(os.__file__)]
        self.memo = {}

    def files(self, dotted):
        """the module's own files; None if it is not there or compiled"""
        rel = dotted.replace('.', '/')
        for p in self.paths:
            d = os.path.join(p, rel)
            if os.path.isdir(d):
                fs = [f for f in (d + '/__init__.py', d + '/__init__.pyi') if os.path.isfile(f)]
                if fs:
                    return fs
            fs = [f for f in (d + '.py', d + '.pyi') if os.path.isfile(f)]
            if fs:
                return fs
        return None

    def is_module(self, dotted):
        return dotted.split('.')[0] in sys.builtin_module_names or self.files(dotted) is not None

    def words(self, dotted, depth=0):
        """identifiers in the module (and in what it imports with a star), None if its source is not there"""
        if dotted in self.memo:
            return self.memo[dotted]
        self.memo[dotted] = set()
        fs = self.files(dotted)
        if fs is None:
            if dotted in sys.builtin_module_names:
                self.memo[dotted] = set(dir(importlib.import_module(dotted)))
            else:
                self.memo[dotted] = None
            return self.memo[dotted]
        out = set()
        for f in sorted(fs, key=lambda f: f.endswith('.pyi')):
            if f.endswith('.pyi') and out is None:
                out = set()  # compiled members: the stub says which
            elif out is None:
                break
            text = open(f, encoding='utf-8', errors='replace').read()
            out |= self.bound(text)
            pkg = dotted if f.rsplit('/', 1)[1].startswith('__init__') else dotted.rpartition('.')[0]
            for dots, name in re.findall(r'^\s*from\s+(\.*)([\w.]*)\s+import\s+\(?\s*\*', text, re.M):
                base = pkg.split('.')[:len(pkg.split('.')) - len(dots) + 1] if dots else []
                w = self.words('.'.join(base + ([name] if name else [])), depth + 1) if depth < 8 else None
                if w is None:
                    out = None
                    break
                out |= w
        self.memo[dotted] = out
        return out

    @staticmethod
    def bound(text):
        """what a module may bind: names of its own level and whatever it spells in a string"""
        try:
            tree = ast.parse(text)
        except (SyntaxError, ValueError):
            return set(re.findall(r'[A-Za-z_]\w*', text))
        out, todo = set(), list(tree.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                continue
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name.split('.')[0]) for a in n.names}
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            todo.extend(ast.iter_child_nodes(n))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 80:
                out |= set(re.findall(r'[A-Za-z_]\w*', n.value))
            elif isinstance(n, ast.Global):
                out |= set(n.names)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) in ('globals()', 'vars()') or \
                    isinstance(n, ast.Call) and ast.unparse(n.func) in ('globals().update', 'vars().update', 'setattr'):
                return set(re.findall(r'[A-Za-z_]\w*', text))
        return out

    def python(self, dotted):
        """the object itself, for the standard library"""
        parts = dotted.split('.')
        if parts[0] not in STANDARD:
            return None
        for i in range(len(parts), 0, -1):
            try:
                o = importlib.import_module('.'.join(parts[:i]))
            except ImportError:
                continue
            for a in parts[i:]:
                o = getattr(o, a, None)
            return o
        return None

    def attributes(self, cls):
        if cls not in self.memo:
            out = set(dir(cls)) | {'__dict__'}
            for k in cls.__mro__:
                try:
                    out |= set(re.findall(r'self\.(\w+)', inspect.getsource(k)))
                except (OSError, TypeError):
                    pass
            self.memo[cls] = out
        return self.memo[cls]

    def has(self, dotted, name):
        """may the module have the member?"""
        w = self.words(dotted)
        return w is None or name in w or self.is_module(f'{dotted}.{name}') or self.compiled(f'{dotted}.{name}') or name.startswith('__')

    def compiled(self, dotted):
        return any(glob.glob(os.path.join(p, dotted.replace('.', '/')) + '.*.so') for p in self.paths)

    def occurring(self, words, roots):
        """those of the words that occur in the sources of the packages"""
        if not words:
            return set()
        where = []
        for r in sorted(roots):
            for p in self.paths:
                for x in (os.path.join(p, r), os.path.join(p, r + '.py')):
                    if os.path.exists(x):
                        where.append(x)
        if not where:
            return set(words)
        r = subprocess.run(['grep', '-rhowF', '--include=*.py', '--include=*.pyi', '-f', '-', *where], input='\n'.join(sorted(words)) + '\n',
                           capture_output=True, text=True, env={'LC_ALL': 'C', 'PATH': os.environ.get('PATH', '/usr/bin:/bin')}, errors='replace')
        return set(r.stdout.split()) if r.returncode in (0, 1) else set(words)


STANDARD = {'logging', 'pathlib', 'datetime', 're', 'json', 'os', 'math', 'copy', 'inspect', 'types', 'timeit', 'warnings', 'typing', 'abc', 'functools',
            'itertools', 'collections', 'enum', 'io', 'sys', 'time', 'dataclasses', 'contextlib', 'textwrap', 'shutil', 'tempfile', 'string'}
FILLS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'appendleft'}
MAKES = {'logging.getLogger': (logging.Logger,), 're.search': (re.Match, None), 're.match': (re.Match, None), 're.fullmatch': (re.Match, None),
         're.compile': (re.Pattern,), 'datetime.datetime.now': (datetime.datetime,), 'io.StringIO': (io.StringIO,)}
ITERABLES = (list, set, frozenset, tuple, type(iter([])), type(x for x in ()), collections.deque, type({}.keys()), type({}.values()), zip, range)
LIKE = {'list': {a for t in ITERABLES for a in dir(t)}, 'tuple': set(dir(tuple)), 'str': set(dir(str)),
        'dict': {a for t in (dict, collections.OrderedDict, collections.defaultdict, collections.Counter) for a in dir(t)}}
TYPE = set(dir(type))
COMMON = {a for t in (object, type, str, bytes, int, float, complex, BaseException, OSError, type(len), type(lambda: 0), type(Libraries.words))
          for a in dir(t)} | LIKE['list'] | LIKE['dict']


class Scope:
    def __init__(self, node, module, parent=None, cls=None, fi=None):
        self.node, self.module, self.parent, self.cls, self.fi = node, module, parent, cls, fi
        self.bind = {}  # name -> [(kind, ...)]
        self.globals = set()
        self.memo = {}
        self.fills = {}
        self.isinst = None
        self.me = None
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            ps = a.posonlyargs + a.args
            for x in ps + a.kwonlyargs:
                self.bind.setdefault(x.arg, []).append(('param', x))
            for x, k in ((a.vararg, 'vararg'), (a.kwarg, 'kwarg')):
                if x:
                    self.bind.setdefault(x.arg, []).append((k, x))
            if cls is not None and ps and not (fi is not None and fi.is_static) and parent is None:
                self.me = ps[0].arg
            self.collect(_fn_nodes(node))

    def collect(self, nodes):
        comp = set()
        nodes = list(nodes)
        for n in nodes:
            if isinstance(n, ast.comprehension):
                comp |= {id(x) for x in ast.walk(n.target)}
        for n in nodes:
            b = self.bind
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t, ('value', n.value))
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name):
                    b.setdefault(n.target.id, []).append(('ann', n.annotation, n.value))
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    b.setdefault(n.target.id, []).append(('aug', n))
            elif isinstance(n, ast.NamedExpr):
                self.target(n.target, ('value', n.value))
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.target(n.target, ('elem', n.iter))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.target(i.optional_vars, ('any',))
            elif isinstance(n, ast.ExceptHandler):
                if n.name:
                    b.setdefault(n.name, []).append(('except', n))
            elif isinstance(n, ast.Import):
                for x in n.names:
                    b.setdefault(x.asname or x.name.split('.')[0], []).append(('import', x.name if x.asname else x.name.split('.')[0]))
            elif isinstance(n, ast.ImportFrom):
                for x in n.names:
                    b.setdefault(x.asname or x.name, []).append(('from', n, x.name))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                b.setdefault(n.name, []).append(('def', n))
            elif isinstance(n, ast.ClassDef):
                b.setdefault(n.name, []).append(('class', n))
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals |= set(n.names)
            elif type(n).__name__ in ('MatchAs', 'MatchStar') and n.name:
                b.setdefault(n.name, []).append(('any',))
            elif type(n).__name__ == 'MatchMapping' and n.rest:
                b.setdefault(n.rest, []).append(('any',))

    def target(self, t, how):
        if isinstance(t, ast.Name):
            self.bind.setdefault(t.id, []).append(how)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.target(e.value, ('any',))
                else:
                    self.target(e, ('item', how, i, len(t.elts)) if not any(isinstance(x, ast.Starred) for x in t.elts) else ('any',))


class Names:
    def __init__(self, prog):
        self.prog = prog
        self.bad = {}
        self.sites = dict(names=0, attributes=0, calls=0, functions=0)
        self.modules = [m for m in prog.modules.values() if not m.relpath.startswith('reference') and not m.name.startswith('spec_')]
        self.module_names = {}
        self.attr_stores = {}  # class -> attr -> [(value expr | None, scope)]
        self.stored_on_unknown = set()
        self.dynamic = set()
        self.narrow = []
        self.attr_memo, self.ret_memo = {}, {}
        self.busy = set()
        self.scopes = []
        self.functions = []
        self.pending = {}
        self.libs = Libraries(prog)
        for m in self.modules:
            self.module_scope(m)
        for m in self.modules:
            self.functions_of(m)
        self.called = None
        self.filled = {}
        self.new_stores = self.attr_stores
        for again in range(3):  # what is stored where depends on what is known of the receivers
            for sc in self.scopes:
                self.collect_stores(sc)
            self.attr_stores = self.new_stores
            self.forget()
            if again < 2:
                self.index_calls()
                self.forget()
                self.new_stores, self.stored_on_unknown, self.dynamic, self.filled = {}, set(), set(), {}
                for sc in self.scopes:
                    sc.fills = {}
        for sc in list(self.scopes):
            self.check(sc)
        for m in self.modules:
            for c in m.classes.values():
                self.initialised(c)
        for sc in self.functions:
            self.ignored(sc)
        self.vocabulary()

    def forget(self):
        self.attr_memo, self.ret_memo = {}, {}
        for sc in self.scopes:
            sc.memo = {}

    def index_calls(self):
        """function -> the calls of it; a parameter nothing is said about holds what the calls pass"""
        called, names = {}, {}
        for sc in self.scopes:
            if getattr(sc, 'is_class', False):
                continue
            nodes = [sc.node.body] if isinstance(sc.node, ast.Lambda) else _fn_nodes(sc.node)
            for n in nodes if not isinstance(sc.node, ast.Lambda) else ast.walk(sc.node.body):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    names[n.attr] = names.get(n.attr, 0) + 1
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    names[n.id] = names.get(n.id, 0) + 1
                if isinstance(n, ast.Call):
                    for x in self.T(n.func, sc) or ():
                        f = x[1] if x[0] == 'f' else x[1].find('__init__') if x[0] == 'c' else None
                        if f is not None:
                            called.setdefault(f, []).append((n, sc, 1 if x[0] == 'c' else int(bool(f.cls is not None and not f.is_static and x[2]))))
        self.called, self.mentioned = called, names

    def passed(self, sc, name, depth):
        """what the package's own calls pass for a parameter"""
        f = sc.fi
        if f is None or self.called is None or name == sc.me:
            return None
        sites = self.called.get(f)
        if f.cls is not None:  # calls through a base class arrive here, too
            for k in f.cls.mro()[1:]:
                if f.name in k.methods and f.name != '__init__':
                    sites = (sites or []) + self.called.get(k.methods[f.name], [])
        if not sites or f.name != '__init__' and self.mentioned.get(f.name, 0) > len(sites):
            return None
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out = set()
        for n, s, bound in sites:
            if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords) or s is sc:
                return None
            v = next((k.value for k in n.keywords if k.arg == name), None)
            if v is None:
                i = pos.index(name) - bound if name in pos else -1
                v = n.args[i] if 0 <= i < len(n.args) else self.default(f.node, name)
            saved, self.narrow, comps, Names.comps = self.narrow, [], Names.comps, []
            try:
                in_comp = any(isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and
                              any(x is n for x in ast.walk(c)) for c in ast.walk(s.node))
                out = self.union(out, self.T(v, s, depth + 1) if v is not None and not in_comp else None)
            finally:
                self.narrow, Names.comps = saved, comps
            if out is None:
                return None
        return out

    def vocabulary(self):
        """what is asked of objects of unknown kind must at least be known to the package or to a library it imports"""
        own, roots = set(COMMON) | self.stored_on_unknown, set()
        for m in self.modules:
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    own.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    own.add(n.attr)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    own.add(n.target.id)
                elif isinstance(n, ast.Import):
                    roots |= {a.name.split('.')[0] for a in n.names}
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    roots.add(n.module.split('.')[0])
            own |= {x for c in m.classes.values() for x in c.class_attrs}
        ask = {a for a in self.pending if a not in own}
        known = self.libs.occurring(ask, roots - {self.prog.package, 'typing', 'flixOpt'})
        missing = {r for r in roots if not self.libs.is_module(r)}
        for a in sorted(ask - known):
            for sc, n in self.pending[a]:
                base = n.value
                while isinstance(base, (ast.Attribute, ast.Call, ast.Subscript)):
                    base = base.func if isinstance(base, ast.Call) else base.value
                if isinstance(base, ast.Name):
                    s = self.lookup(sc, base.id)
                    if isinstance(s, Scope) and any(b[0] in ('import', 'from') for b in s.bind[base.id]):
                        t = self.var(s, base.id, 0)
                        if t and any(x[0] == 'e' and x[1].split('.')[0] in missing for x in t):
                            continue
                if not self.hasattr_in(sc, a):
                    self.report(sc, n, f'nothing the package or its libraries define has {a}')

    def where(self, sc, n):
        return f'{sc.module.relpath}:{getattr(n, "lineno", 0)} {self.title(sc)}'

    def title(self, sc):
        if sc.fi is not None:
            return sc.fi.qual
        if sc.parent is not None and isinstance(sc.node, (ast.FunctionDef, ast.Lambda)):
            return self.title(sc.parent) + '.' + getattr(sc.node, 'name', '<lambda>')
        return sc.node.name if isinstance(sc.node, ast.ClassDef) else '<module>'

    def report(self, sc, n, text):
        self.bad.setdefault(self.where(sc, n), text)

    # ------------------------------------------------------------------------------------------ scopes
    def module_scope(self, m):
        sc = Scope(m.tree, m)
        nodes, todo = [], list(m.tree.body)
        while todo:
            n = todo.pop()
            nodes.append(n)
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(n))
        sc.collect(nodes)
        names = set(sc.bind)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                names |= set(n.names)
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))
        self.module_names[m.name] = (names, star, sc)
        self.scopes.append(sc)

    def functions_of(self, m):
        top = self.module_names[m.name][2]
        known = {id(f.node): f for f in m.functions.values()}
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                known[id(f.node)] = f

        def walk(nodes, parent, cls, in_fn):
            for n in nodes:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = known.get(id(n))
                    sc = Scope(n, m, parent, cls if not in_fn else None, fi)
                    sc.owner = cls
                    self.scopes.append(sc)
                    self.functions.append(sc)
                    self.sites['functions'] += 1
                    for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                        walk([d], parent, cls, in_fn)
                    walk(n.body, sc, cls, True)
                elif isinstance(n, ast.Lambda):
                    sc = Scope(n, m, parent, None, None)
                    sc.owner = cls
                    self.scopes.append(sc)
                    walk([n.body], sc, cls, True)
                elif isinstance(n, ast.ClassDef):
                    k = m.classes.get(n.name) if parent is None else None
                    if k is not None and k.node is not n:
                        k = None
                    walk(n.bases + [x.value for x in n.keywords] + n.decorator_list, parent, cls, in_fn)
                    if k is not None:
                        sc = Scope(n, m, parent, None, None)
                        sc.owner = k
                        nodes_, todo = [], list(n.body)
                        while todo:
                            x = todo.pop()
                            nodes_.append(x)
                            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                                todo.extend(ast.iter_child_nodes(x))
                        sc.collect(nodes_)
                        sc.is_class = True
                        self.scopes.append(sc)
                        walk(n.body, None, k, False)
                    else:
                        pass  # a local class: not analysed
                else:
                    walk(ast.iter_child_nodes(n), parent, cls, in_fn)

        walk(m.tree.body, None, None, False)
        top.owner = None

    def lookup(self, sc, name):
        """the scope that binds name, or 'module', 'builtin', None"""
        s = sc
        while s is not None:
            if name in s.bind and name not in s.globals and s is not self.module_names[s.module.name][2]:
                return s
            if name in s.globals and s.parent is None:
                break
            s = s.parent
        names, star, top = self.module_names[sc.module.name]
        if name in names:
            return top
        if name in BUILTINS:
            return 'builtin'
        return 'star' if star else None

    # ------------------------------------------------------------------------------------------ types
    def ann(self, a, m, depth=0):
        """type of an annotation"""
        if a is None or depth > 10:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return {NONE}
            if isinstance(a.value, str):
                try:
                    return self.ann(ast.parse(a.value, mode='eval').body, m, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.Name):
            if a.id in ('list', 'List'):
                return {('list', None)}
            if a.id in ('dict', 'Dict'):
                return {('dict', None, None)}
            if a.id == 'str':
                return {STR}
            if a.id in ('int', 'float', 'bool', 'bytes', 'range', 'complex'):
                return {OTHER}
            r = self.prog.resolve(m, a.id)
            if isinstance(r, ClassInfo):
                return {('i', r)}
            if isinstance(r, tuple) and r[0] == 'expr':
                return self.ann(r[1], r[2], depth + 1)
            if r is None and a.id in self.prog.classes and a.id not in m.imports:
                return {('i', self.prog.classes[a.id])}
            return None
        if isinstance(a, ast.Attribute):
            t = self.ann_module(a.value, m)
            if t is not None:
                r = self.prog.resolve(t, a.attr)
                if isinstance(r, ClassInfo):
                    return {('i', r)}
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self.union(self.ann(a.left, m, depth + 1), self.ann(a.right, m, depth + 1))
        if isinstance(a, ast.Subscript):
            h = (_dec_name(a.value) or '').split('.')[-1]
            el = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h == 'Optional':
                return self.union(self.ann(el[0], m, depth + 1), {NONE})
            if h == 'Union':
                out = set()
                for e in el:
                    out = self.union(out, self.ann(e, m, depth + 1))
                return out
            if h in ('List', 'list', 'Sequence', 'Iterable', 'Set', 'set', 'FrozenSet', 'frozenset', 'Iterator', 'Collection'):
                return {('list', self.freeze(self.ann(el[0], m, depth + 1)))}
            if h in ('Dict', 'dict', 'Mapping', 'OrderedDict', 'defaultdict'):
                return {('dict', self.freeze(self.ann(el[0], m, depth + 1)), self.freeze(self.ann(el[1], m, depth + 1)) if len(el) > 1 else None)}
            if h in ('Tuple', 'tuple'):
                if len(el) == 2 and isinstance(el[1], ast.Constant) and el[1].value is Ellipsis:
                    return {('list', self.freeze(self.ann(el[0], m, depth + 1)))}
                return {('tuple', tuple(self.freeze(self.ann(e, m, depth + 1)) for e in el))}
            if h == 'Literal':
                return {OTHER}
            if h in ('Type', 'type'):
                t = self.ann(el[0], m, depth + 1)
                return {('c', x[1]) for x in t} if t and all(x[0] == 'i' for x in t) else None
        return None

    def ann_module(self, a, m):
        if isinstance(a, ast.Name):
            r = self.prog.resolve(m, a.id)
            return r if isinstance(r, ModuleInfo) else None
        return None

    @staticmethod
    def union(a, b):
        return None if a is None or b is None else set(a) | set(b)

    @staticmethod
    def freeze(t):
        return None if t is None else frozenset(t)

    def var(self, sc, name, depth):
        key = name
        if key in sc.memo:
            return sc.memo[key]
        if (id(sc), name) in self.busy:
            return set()
        self.busy.add((id(sc), name))
        try:
            out = set()
            for b in sc.bind[name]:
                out = self.union(out, self.bound(sc, name, b, depth))
                if out is None:
                    break
            if out and self.is_empty(out) and self.called is not None:
                out = self.contents(out, sc.fills.get(name, ()), depth)
        finally:
            self.busy.discard((id(sc), name))
        if not self.busy:
            sc.memo[key] = out
        return out

    def bound(self, sc, name, b, depth):
        k = b[0]
        if depth > DEPTH:
            return None
        if k == 'param':
            if name == sc.me:
                return {('c', sc.cls)} if sc.fi is not None and sc.fi.is_classmethod or sc.node.name == '__new__' else {('i', sc.cls)}
            t = self.ann(b[1].annotation, sc.module) if b[1].annotation is not None else self.passed(sc, name, depth)
            if t is not None:
                d = self.default(sc.node, b[1].arg)
                if isinstance(d, ast.Constant) and d.value is None:
                    t = set(t) | {NONE}
            return t
        if k == 'value':
            return self.T(b[1], sc, depth + 1)
        if k == 'ann':
            t = self.ann(b[1], sc.module)
            return t
        if k == 'elem':
            return self.elem(self.T(b[1], sc, depth + 1))
        if k == 'item':
            src = b[1]
            if src[0] == 'value' and isinstance(src[1], (ast.Tuple, ast.List)) and len(src[1].elts) == b[3]:
                return self.T(src[1].elts[b[2]], sc, depth + 1)
            t = self.bound(sc, name, src, depth + 1)
            return self.item(t, b[2], b[3])
        if k == 'import':
            r = self.prog._module_or_ext(b[1])
            return {('m', r)} if isinstance(r, ModuleInfo) else {('e', b[1])}
        if k == 'from':
            return self.imported(sc.module, b[1], b[2])
        if k == 'def':
            if sc.node is sc.module.tree:
                f = sc.module.functions.get(name)
                return {('f', f, False)} if f is not None and f.node is b[1] else None
            return {('d', b[1])} if not b[1].decorator_list else None
        if k == 'class':
            c = sc.module.classes.get(name)
            return {('c', c)} if c is not None and c.node is b[1] else None
        return None

    def imported(self, m, node, name):
        src = self.prog._absmod(node, m)
        if node.level == 0 and src != self.prog.package and not src.startswith(self.prog.package + '.'):
            return {('e', f'{src}.{name}')}
        base = src[1:] if node.level else src[len(self.prog.package) + 1:] if src != self.prog.package else ''
        if base == '' and name in self.prog.modules:
            return {('m', self.prog.modules[name])}
        k = self.prog.modules.get(base or '__init__')
        if k is None:
            return None
        return self.member(k, name)

    def member(self, k, name):
        r = self.prog.resolve(k, name)
        if isinstance(r, ClassInfo):
            return {('c', r)}
        if isinstance(r, FuncInfo):
            return {('f', r, False)}
        if isinstance(r, ModuleInfo):
            return {('m', r)}
        return None

    @staticmethod
    def default(fn, name):
        a = fn.args
        ps = a.posonlyargs + a.args
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if p.arg == name:
                return d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == name:
                return d
        return None

    def elem(self, t):
        if t is None:
            return None
        out = set()
        for x in t:
            if x[0] == 'list':
                out = self.union(out, x[1])
            elif x[0] == 'dict':
                out = self.union(out, x[1])
            elif x[0] == 'tuple':
                for e in x[1]:
                    out = self.union(out, e)
            elif x is NONE or x[0] == 'none':
                continue
            else:
                return None
            if out is None:
                return None
        return out

    def item(self, t, i, n):
        if t is None:
            return None
        out = set()
        for x in t:
            if x[0] == 'tuple' and len(x[1]) == n:
                out = self.union(out, x[1][i])
            elif x[0] == 'list':
                out = self.union(out, x[1])
            else:
                return None
        return out

    def T(self, e, sc, depth=0):
        if depth > DEPTH:
            return None
        t = self._T(e, sc, depth)
        return t

    def narrowed(self, e):
        if not self.narrow:
            return False, None
        if isinstance(e, (ast.Name, ast.Attribute)):
            s = ast.unparse(e)
            for d in reversed(self.narrow):
                if s in d:
                    return True, d[s]
        return False, None

    def _T(self, e, sc, depth):
        found, t = self.narrowed(e)
        if found:
            return t
        if isinstance(e, ast.Constant):
            return {NONE} if e.value is None else {STR} if isinstance(e.value, str) else {OTHER}
        if isinstance(e, ast.JoinedStr):
            return {STR}
        if isinstance(e, ast.Compare):
            return {OTHER}
        if isinstance(e, ast.Name):
            for c in reversed(self.comps):
                if e.id in c:
                    return c[e.id]
            s = self.lookup(sc, e.id)
            if s is None or s in ('builtin', 'star'):
                return {('b', e.id)} if s == 'builtin' else None
            t = self.var(s, e.id, depth)
            return self.with_isinstance(t, e, sc, depth)
        if isinstance(e, ast.Attribute):
            return self.with_isinstance(self.attr_type(self.T(e.value, sc, depth + 1), e.attr, depth), e, sc, depth)
        if isinstance(e, ast.IfExp):
            return self.union(self.T(e.body, sc, depth + 1), self.T(e.orelse, sc, depth + 1))
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out = self.union(out, self.T(v, sc, depth + 1))
            return out
        if isinstance(e, (ast.List, ast.Set)):
            out = set()
            for v in e.elts:
                out = self.union(out, self.elem(self.T(v.value, sc, depth + 1)) if isinstance(v, ast.Starred) else self.T(v, sc, depth + 1))
            return {('list', self.freeze(out))}
        if isinstance(e, ast.Tuple):
            if any(isinstance(v, ast.Starred) for v in e.elts):
                return None
            return {('tuple', tuple(self.freeze(self.T(v, sc, depth + 1)) for v in e.elts))}
        if isinstance(e, ast.Dict):
            k = v = set()
            for a, b in zip(e.keys, e.values):
                if a is None:
                    t = self.T(b, sc, depth + 1)
                    for x in t if t is not None else [None]:
                        if x is None or x[0] != 'dict':
                            k = v = None
                        else:
                            k, v = self.union(k, x[1]), self.union(v, x[2])
                else:
                    k, v = self.union(k, self.T(a, sc, depth + 1)), self.union(v, self.T(b, sc, depth + 1))
            return {('dict', self.freeze(k), self.freeze(v))}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.push_comp(e, sc, depth)
            try:
                if isinstance(e, ast.DictComp):
                    return {('dict', self.freeze(self.T(e.key, sc, depth + 1)), self.freeze(self.T(e.value, sc, depth + 1)))}
                return {('list', self.freeze(self.T(e.elt, sc, depth + 1)))}
            finally:
                self.comps.pop()
        if isinstance(e, ast.BinOp):
            a, b = self.T(e.left, sc, depth + 1), self.T(e.right, sc, depth + 1)
            if a is not None and b is not None and all(x[0] == 'list' for x in a | b):
                return a | b
            return None
        if isinstance(e, ast.Subscript):
            t = self.T(e.value, sc, depth + 1)
            if t is None:
                return None
            out = set()
            for x in t:
                if x[0] == 'list':
                    out = self.union(out, {x} if isinstance(e.slice, ast.Slice) else x[1])
                elif x[0] == 'dict':
                    out = self.union(out, x[2])
                elif x[0] == 'tuple' and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and e.slice.value < len(x[1]):
                    out = self.union(out, x[1][e.slice.value])
                elif x[0] == 'none':
                    continue
                else:
                    return None
                if out is None:
                    return None
            return out
        if isinstance(e, ast.Call):
            return self.call_type(e, sc, depth)
        if isinstance(e, ast.NamedExpr):
            return self.T(e.value, sc, depth + 1)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {OTHER}
        return None

    comps = []

    def push_comp(self, e, sc, depth):
        env = {}
        self.comps.append(env)
        for g in e.generators:
            t = self.elem(self.T(g.iter, sc, depth + 1))

            def put(tg, ty):
                if isinstance(tg, ast.Name):
                    env[tg.id] = ty
                elif isinstance(tg, (ast.Tuple, ast.List)):
                    for i, x in enumerate(tg.elts):
                        put(x.value if isinstance(x, ast.Starred) else x,
                            None if any(isinstance(y, ast.Starred) for y in tg.elts) else self.item(ty, i, len(tg.elts)))
            put(g.target, t)
            for c in g.ifs:  # isinstance() in the condition
                for s, ty in self.facts(c, sc, depth).items():
                    if s in env:
                        env[s] = ty

    def with_isinstance(self, t, e, sc, depth):
        """classes the function tests for may be what is there, too"""
        if t is None:
            return None
        if sc.isinst is None:
            sc.isinst = {}
            for n in ast.walk(sc.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and \
                        isinstance(n.args[0], (ast.Name, ast.Attribute)):
                    sc.isinst.setdefault(ast.unparse(n.args[0]), []).append(n.args[1])
        tests = sc.isinst.get(ast.unparse(e)) if sc.isinst else None
        for c in tests or ():
            t = self.union(t, self.classes(c, sc, depth))
            if t is None:
                return None
        return t

    def classes(self, c, sc, depth):
        if isinstance(c, ast.Tuple):
            out = set()
            for x in c.elts:
                out = self.union(out, self.classes(x, sc, depth))
            return out
        t = self.T(c, sc, depth + 1)
        if t is None:
            return None
        out = set()
        for x in t:
            if x[0] == 'c':
                out.add(('i', x[1]))
            elif x == ('b', 'list') or x == ('b', 'tuple'):
                out.add(('list', None))
            elif x == ('b', 'dict'):
                out.add(('dict', None, None))
            elif x[0] == 'b':
                out.add(STR if x[1] == 'str' else OTHER)
            else:
                return None
        return out

    def facts(self, test, sc, depth=0):
        """what a test says about types when it holds: {chain: type}"""
        out = {}
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            for v in test.values:
                out.update(self.facts(v, sc, depth))
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 and \
                isinstance(test.args[0], (ast.Name, ast.Attribute)):
            out[ast.unparse(test.args[0])] = self.classes(test.args[1], sc, depth)
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ('hasattr', 'callable', 'issubclass') and test.args:
            out[ast.unparse(test.args[0])] = None
        return out

    # ------------------------------------------------------------------------------------------ attributes
    def external(self, c):
        return any(str(b) not in PLAIN_BASES for b in c.external_bases())

    def stores_of(self, c):
        return self.attr_stores.get(c, {})

    def has(self, c, name):
        if name in OF_OBJECT or name in self.stored_on_unknown:
            return True
        for k in c.mro() + c.all_subclasses():
            if k in self.dynamic or self.external(k):
                return True
            if name in k.methods or name in k.setters or name in k.class_attrs or name in k.attr_types or name in self.stores_of(k) or \
                    any(isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == name for n in k.node.body):
                return True
            if any(s in k.methods for s in ('__getattr__', '__getattribute__')):
                return True
        return False

    def has_on_class(self, c, name):
        if self.has(c, name):
            return True
        return name in TYPE

    def attr_type(self, t, name, depth):
        if t is None or depth > DEPTH:
            return None
        out = set()
        for x in t:
            if x[0] == 'i' and name == '__class__':
                r = {('c', x[1])}
            elif x[0] == 'i':
                r = self.inst_attr(x[1], name, depth)
            elif x[0] == 'c':
                f = x[1].find(name)
                r = None
                if f is not None and not f.is_property:
                    r = {('f', f, f.is_classmethod or f.is_static)} if not f.other_decorators else None
                elif f is None:
                    a = x[1].find_class_attr(name)
                    r = None
                    k = next((k for k in x[1].mro() if name in k.attr_types and self.annotated(k, name)), None)
                    if k is not None:
                        r = self.ann(*k.attr_types[name][:2])
                    elif a is not None:
                        sc = next((s for s in self.scopes if getattr(s, 'is_class', False) and s.owner is a[1]), None)
                        r = self.T(a[0], sc, depth + 1) if sc is not None else None
                    elif name in x[1].attr_types:
                        r = self.ann(x[1].attr_types[name][0], x[1].attr_types[name][1])
            elif x[0] == 'm':
                r = self.member(x[1], name) or (self.top_var(x[1], name, depth))
            elif x[0] == 'e':
                r = {('e', f'{x[1]}.{name}')}
            elif x[0] == 'super':
                f = x[1].find(name, after=x[1]) if x[1] in x[1].mro() else None
                r = {('f', f, True)} if f is not None and not f.is_property and not f.other_decorators else \
                    self.returns(f, depth) if f is not None and f.is_property else None
            elif x[0] in ('list', 'dict', 'tuple', 'other', 'str'):
                r = {('bm', x, name)}
            elif x[0] == 'none':
                continue
            else:
                r = None
            out = self.union(out, r)
            if out is None:
                return None
        return out

    def top_var(self, m, name, depth):
        top = self.module_names.get(m.name)
        if top is None or name not in top[2].bind:
            return None
        return self.var(top[2], name, depth + 1)

    def inst_attr(self, c, name, depth):
        f = c.find(name)
        if f is not None:
            if f.other_decorators:
                return None
            if f.is_property:
                over = [s.methods[name] for s in c.all_subclasses() if name in s.methods]
                t = self.returns(f, depth)
                for g in over:
                    t = self.union(t, self.returns(g, depth))
                return t
            return {('f', f, True)}
        key = (c, name)
        if key in self.attr_memo:
            return self.attr_memo[key]
        if key in self.busy:
            return set()
        self.busy.add(key)
        try:
            out, seen = set(), False
            saved, self.narrow, comps, Names.comps = self.narrow, [], Names.comps, []
            for k in c.mro() + c.all_subclasses():
                if name in k.attr_types and self.annotated(k, name):
                    a = k.attr_types[name]
                    out, seen = self.union(out, self.ann(a[0], a[1])), True
                if name in k.class_attrs:
                    sc = next((s for s in self.scopes if getattr(s, 'is_class', False) and s.owner is k), None)
                    out, seen = self.union(out, self.T(k.class_attrs[name], sc, depth + 1) if sc is not None else None), True
                for v, sc in self.stores_of(k).get(name, ()):
                    seen = True
                    out = self.union(out, v(depth) if callable(v) else None if v is None else self.T(v, sc, depth + 1))
                    if out is None:
                        break
                if out is None:
                    break
        finally:
            self.busy.discard(key)
            self.narrow, Names.comps = saved, comps
        try:
            if out and self.is_empty(out) and self.called is not None:
                fills = [x for k in [None] + c.mro() + c.all_subclasses() for x in self.filled.get(k, {}).get(name, ())]
                self.busy.add(key)
                out = self.contents(out, fills, depth)
        finally:
            self.busy.discard(key)
        if not seen or name in self.stored_on_unknown:
            out = None
        if not self.busy:
            self.attr_memo[key] = out
        return out

    def annotated(self, k, name):
        return any(isinstance(n, ast.AnnAssign) and (isinstance(n.target, ast.Name) and n.target.id == name or
                                                     isinstance(n.target, ast.Attribute) and n.target.attr == name) for n in ast.walk(k.node))

    def returns(self, f, depth):
        if f.node.returns is not None:
            return self.ann(f.node.returns, f.module) if not f.is_generator else None
        if f.is_generator or f.is_abstract or isinstance(f.node, ast.AsyncFunctionDef):
            return None
        if f in self.ret_memo:
            return self.ret_memo[f]
        if f in self.busy or depth > DEPTH:
            return set() if f in self.busy else None
        self.busy.add(f)
        saved, self.narrow, comps, Names.comps = self.narrow, [], Names.comps, []
        try:
            sc = next((s for s in self.functions if s.node is f.node), None)
            out = set()
            rets = [n for n in _fn_nodes(f.node) if isinstance(n, ast.Return)]
            if sc is None:
                return None
            for n in rets:
                out = self.union(out, {NONE} if n.value is None else self.T(n.value, sc, depth + 1))
                if out is None:
                    break
            if not rets:
                out = None
        finally:
            self.busy.discard(f)
            self.narrow, Names.comps = saved, comps
        if not self.busy:
            self.ret_memo[f] = out
        return out

    def call_type(self, e, sc, depth):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.lookup(sc, 'super') == 'builtin':
            owner = getattr(sc, 'owner', None)
            if owner is None:
                return None
            if len(e.args) == 2:
                t = self.T(e.args[0], sc, depth + 1)
                return {('super', x[1]) for x in t} if t and all(x[0] == 'c' for x in t) else None
            return {('super', owner)}
        t = self.T(e.func, sc, depth + 1)
        if t is None:
            return None
        out = set()
        for x in t:
            r = None
            if x[0] == 'c':
                r = {('i', x[1])} if not self.external(x[1]) or True else None
                if x[1].find('__new__') is not None:
                    r = None
            elif x[0] == 'f':
                f = x[1]
                r = self.returns(f, depth)
                if f.cls is not None and r is not None:
                    for s in f.cls.all_subclasses():
                        if f.name in s.methods:
                            r = self.union(r, self.returns(s.methods[f.name], depth))
                if f.other_decorators:
                    r = None
            elif x[0] == 'e':
                o = self.libs.python(x[1])
                r = {NONE if k is None else ('x', k) for k in MAKES[x[1]]} if x[1] in MAKES else {('x', o)} if inspect.isclass(o) and \
                    o.__module__.split('.')[0] in ('logging', 'datetime') else None
            elif x[0] == 'b':
                r = self.builtin_call(x[1], e, sc, depth)
            elif x[0] == 'bm':
                r = self.container_call(x[1], x[2], e, sc, depth)
            out = self.union(out, r)
            if out is None:
                return None
        return out

    def builtin_call(self, name, e, sc, depth):
        a = e.args
        if any(isinstance(x, ast.Starred) for x in a):
            return None
        if name in LISTY and len(a) >= 1:
            el = self.elem(self.T(a[0], sc, depth + 1))
            return {('list', self.freeze(el))}
        if name in ('list', 'set', 'tuple') and not a:
            return {EMPTY_LIST}
        if name == 'dict':
            return {EMPTY_DICT if not a and not e.keywords else ('dict', None, None)}
        if name == 'enumerate' and a:
            return {('list', frozenset([('tuple', (frozenset([OTHER]), self.freeze(self.elem(self.T(a[0], sc, depth + 1)))))]))}
        if name == 'zip':
            return {('list', frozenset([('tuple', tuple(self.freeze(self.elem(self.T(x, sc, depth + 1))) for x in a))]))}
        if name == 'filter' and len(a) == 2:
            return {('list', self.freeze(self.elem(self.T(a[1], sc, depth + 1))))}
        if name == 'next' and len(a) == 1:
            return self.elem(self.T(a[0], sc, depth + 1))
        if name == 'next' and len(a) == 2:
            return self.union(self.elem(self.T(a[0], sc, depth + 1)), self.T(a[1], sc, depth + 1))
        if name in ('str', 'repr', 'format'):
            return {STR}
        if name in ('len', 'int', 'float', 'bool', 'repr', 'isinstance', 'hasattr', 'callable', 'any', 'all', 'format', 'range', 'round'):
            return {OTHER}
        return None

    def container_call(self, c, name, e, sc, depth):
        if c[0] == 'dict':
            if name == 'values':
                return {('list', c[2])}
            if name == 'keys':
                return {('list', c[1])}
            if name == 'items':
                return {('list', frozenset([('tuple', (c[1], c[2]))]))}
            if name in ('get', 'pop', 'setdefault'):
                t = None if c[2] is None else set(c[2])
                if name == 'get' and len(e.args) < 2:
                    return self.union(t, {NONE})
                return t if len(e.args) < 2 else self.union(t, self.T(e.args[1], sc, depth + 1))
            if name == 'copy':
                return {c}
        if c[0] == 'str':
            if name in ('split', 'splitlines', 'rsplit'):
                return {('list', frozenset([STR]))}
            return {STR} if name in ('join', 'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'format', 'title', 'ljust', 'rjust', 'center') else {OTHER}
        if c[0] == 'list':
            if name == 'pop':
                return None if c[1] is None else set(c[1])
            if name in ('copy', 'union', 'difference', 'intersection'):
                return {c}
        return None

    # ------------------------------------------------------------------------------------------ stores
    def collect_stores(self, sc):
        if isinstance(sc.node, ast.Lambda) or getattr(sc, 'is_class', False):
            nodes = []
        elif sc.node is sc.module.tree:
            nodes, todo = [], list(sc.node.body)
            while todo:
                n = todo.pop()
                nodes.append(n)
                if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    todo.extend(ast.iter_child_nodes(n))
        else:
            nodes = list(_fn_nodes(sc.node))
        comp = {id(x) for n in nodes if isinstance(n, ast.comprehension) for x in ast.walk(n.target)}

        def store(t, v):
            if isinstance(t, (ast.Tuple, ast.List)):
                vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else None
                for i, x in enumerate(t.elts):
                    store(x.value if isinstance(x, ast.Starred) else x,
                          vs[i] if vs else None if v is None or any(isinstance(y, ast.Starred) for y in t.elts) else
                          (lambda depth, v=v, i=i, n=len(t.elts): self.item(self.T(v, sc, depth + 1), i, n) if not callable(v) else None))
                return
            if not isinstance(t, ast.Attribute):
                return
            ty = self.T(t.value, sc)
            if ty is None and not isinstance(sc.node, ast.Lambda):  # what the tests around it say
                around = [self.facts(i.test, sc) for i in ast.walk(sc.node) if isinstance(i, ast.If) and
                          any(x is t for s in i.body for x in ast.walk(s)) and
                          not any(ast.unparse(x) == ast.unparse(t.value) for s in i.body for x in ast.walk(s)
                                  if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Store))]
                self.narrow.extend(around)
                ty = self.T(t.value, sc)
                del self.narrow[len(self.narrow) - len(around):]
            self.put(ty, t.attr, v, sc)

        for n in nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in FILLS and n.args:
                self.fill(n.func.value, n.func.attr, n.args[-1], sc)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    store(t, n.value)
                    if isinstance(t, ast.Subscript):
                        self.fill(t.value, '[]', (t.slice, n.value), sc)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Attribute):
                    a = n.annotation
                    self.put(self.T(n.target.value, sc), n.target.attr, lambda depth, a=a: self.ann(a, sc.module), sc)
            elif isinstance(n, (ast.AugAssign,)):
                self.fill(n.target, 'extend', n.value, sc)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                store(n.target, None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        store(i.optional_vars, None)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
                t = self.T(n.args[0], sc)
                if isinstance(n.args[1], ast.Constant):
                    self.put(t, n.args[1].value, n.args[2], sc)
                else:
                    self.mark_dynamic(t)
            elif isinstance(n, ast.Attribute) and n.attr == '__dict__' or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'vars' and n.args:
                if not self.only_read(n, sc):
                    self.mark_dynamic(self.T(n.value if isinstance(n, ast.Attribute) else n.args[0], sc))

    def only_read(self, n, sc):
        """the dictionary of attributes is written through: x.__dict__.update(...) or x.__dict__[..] = .."""
        for p in ast.walk(sc.node):
            if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(p, ast.Attribute) and p.value is n and p.attr in ('update', 'setdefault', 'pop', 'clear', '__setitem__'):
                return False
            if isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is n:
                names = [t.id for t in (p.targets if isinstance(p, ast.Assign) else [p.target]) if isinstance(t, ast.Name)]
                for q in ast.walk(sc.node):
                    if isinstance(q, ast.Subscript) and isinstance(q.value, ast.Name) and q.value.id in names and isinstance(q.ctx, (ast.Store, ast.Del)):
                        return False
                    if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id in names and \
                            q.attr in ('update', 'setdefault', 'pop', 'clear', '__setitem__'):
                        return False
        return True

    def mark_dynamic(self, t):
        if t is None:
            self.dynamic |= {c for m in self.modules for c in m.classes.values()}
        else:
            self.dynamic |= {x[1] for x in t if x[0] in ('i', 'c')}

    def fill(self, c, how, v, sc):
        """something is put into the container"""
        if isinstance(c, ast.Name):
            s = self.lookup(sc, c.id)
            if isinstance(s, Scope):
                s.fills.setdefault(c.id, []).append((how, v, sc))
                for b in s.bind.get(c.id, ()):
                    if b[0] == 'value' and isinstance(b[1], (ast.Attribute, ast.Name)) and not (isinstance(b[1], ast.Name) and b[1].id == c.id):
                        self.fill(b[1], how, v, s) if s is sc else self.fill(b[1], 'any', None, s)
        elif isinstance(c, ast.Attribute):
            t = self.T(c.value, sc)
            if t is None:
                self.filled.setdefault(None, {}).setdefault(c.attr, []).append((how, v, sc))
            for x in t or ():
                if x[0] in ('i', 'c'):
                    self.filled.setdefault(x[1], {}).setdefault(c.attr, []).append((how, v, sc))

    @staticmethod
    def is_empty(t):
        return any(x in (EMPTY_LIST, EMPTY_DICT) for x in t)

    def contents(self, t, fills, depth):
        """the container's type, filled; t: [] or {} on their own"""
        out = set()
        for x in t:
            if x == EMPTY_LIST:
                el = set()
                for how, v, sc in fills:
                    with self.elsewhere():
                        e = self.T(v, sc, depth + 1) if how in ('append', 'insert', 'add', 'appendleft') else \
                            self.elem(self.T(v, sc, depth + 1)) if how == 'extend' else None
                    el = self.union(el, e)
                    if el is None:
                        break
                out.add(('list', self.freeze(el)))
            elif x == EMPTY_DICT:
                k = e = set()
                for how, v, sc in fills:
                    with self.elsewhere():
                        k = self.union(k, self.T(v[0], sc, depth + 1) if how == '[]' else None)
                        e = self.union(e, self.T(v[1], sc, depth + 1) if how == '[]' else None)
                out.add(('dict', self.freeze(k), self.freeze(e)))
            else:
                out.add(x)
        return out

    @contextlib.contextmanager
    def elsewhere(self):
        saved, self.narrow, comps, Names.comps = self.narrow, [], Names.comps, []
        try:
            yield
        finally:
            self.narrow, Names.comps = saved, comps

    def put(self, t, attr, v, sc):
        if t is None:
            self.stored_on_unknown.add(attr)
            return
        for x in t:
            if x[0] in ('i', 'c'):
                self.new_stores.setdefault(x[1], {}).setdefault(attr, []).append((v, sc))

    # ------------------------------------------------------------------------------------------ checks
    def check(self, sc):
        if sc.node is sc.module.tree:
            body = sc.node.body
        elif getattr(sc, 'is_class', False):
            body = [n for n in sc.node.body]
        elif isinstance(sc.node, ast.Lambda):
            body = [sc.node.body]
        else:
            body = sc.node.body
        self.stack = []
        self.order(sc)
        for n in body:
            self.visit(n, sc)

    def visit(self, n, sc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, sc)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.bases + n.decorator_list:
                self.visit(d, sc)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self.visit(d, sc)
            return
        if isinstance(n, ast.If) and ast.unparse(n.test) in ("__name__ == '__main__'", "'__main__' == __name__"):
            return  # a script, not the package
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            self.visit(n.test, sc)
            f = self.facts(n.test, sc)
            body = n.body if isinstance(n.body, list) else [n.body]
            written = self.written(body)
            f = {s: (None if any(s == w or s.startswith(w + '.') for w in written) else t) for s, t in f.items()}
            self.narrow.append(f)
            for x in body:
                self.visit(x, sc)
            self.narrow.pop()
            for x in n.orelse if isinstance(n.orelse, list) else [n.orelse]:
                self.visit(x, sc)
            return
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
            k = 0
            for v in n.values:
                self.visit(v, sc)
                self.narrow.append(self.facts(v, sc))
                k += 1
            for _ in range(k):
                self.narrow.pop()
            return
        if isinstance(n, ast.Try):
            names = {a for h in n.handlers for a in ([_dec_name(h.type)] if h.type is not None and not isinstance(h.type, ast.Tuple)
                                                     else [_dec_name(x) for x in h.type.elts] if h.type is not None else ['Exception'])}
            self.guard.append(names)
            for x in n.body:
                self.visit(x, sc)
            self.guard.pop()
            for x in n.handlers:
                self.visit(x, sc)
            for x in n.orelse + n.finalbody:
                self.visit(x, sc)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for i, g in enumerate(n.generators):
                if i == 0:
                    self.visit(g.iter, sc)
            self.push_comp(n, sc, 0)
            k = 0
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, sc)
                for c in g.ifs:
                    self.visit(c, sc)
                    self.narrow.append(self.facts(c, sc))
                    k += 1
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(x, sc)
            for _ in range(k):
                self.narrow.pop()
            self.comps.pop()
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.sites['names'] += 1
            if not any(n.id in c for c in self.comps) and self.lookup(sc, n.id) is None and 'NameError' not in set().union(*self.guard, ()):
                self.report(sc, n, f'the name {n.id} is defined nowhere')
            return
        if isinstance(n, ast.ImportFrom):
            self.check_import(n, sc)
            return
        if isinstance(n, ast.Import) and not any({'ImportError', 'ModuleNotFoundError', 'Exception'} & g for g in self.guard):
            for a in n.names:
                r = self.prog._module_or_ext(a.name)
                if not isinstance(r, ModuleInfo) and (self.libs.is_module(a.name.split('.')[0]) or a.name.split('.')[0] == self.prog.package) and \
                        not self.libs.is_module(a.name) and not self.libs.compiled(a.name):
                    self.report(sc, n, f'the module {a.name} does not exist')
        if isinstance(n, ast.JoinedStr):
            for x in n.values:
                if isinstance(x, ast.FormattedValue):
                    self.visit(x, sc)
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'format_map') and isinstance(n.func.value, ast.Constant):
            for x in n.args + [k.value for k in n.keywords]:
                self.visit(x, sc)
            self.check_format(n, sc)
            return
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            self.check_placeholders(n, sc)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        for x in ast.iter_child_nodes(n):
            self.visit(x, sc)
        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Store):
            self.check_attr(n, sc)
        elif isinstance(n, ast.Call):
            self.check_call(n, sc)

    guard = []

    def check_placeholders(self, n, sc):
        """a text that names a local variable in braces, without the f in front"""
        if any(isinstance(x, ast.Attribute) and x.attr in ('format', 'format_map', 'substitute') for x in ast.walk(sc.node)):
            return
        for w in re.findall(r'\{([A-Za-z_]\w*)(?:[.\[][^{}]*)?(?:![rsa])?(?::[^{}]*)?\}', n.value):
            s = self.lookup(sc, w)
            if isinstance(s, Scope) and isinstance(s.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.report(sc, n, f'the text says {{{w}}} instead of its value')

    def check_format(self, n, sc):
        text = n.func.value.value
        if not isinstance(text, str) or n.func.attr == 'format_map' or any(isinstance(a, ast.Starred) for a in n.args) or \
                any(k.arg is None for k in n.keywords):
            return
        try:
            fields = [f for _, f, _, _ in string.Formatter().parse(text) if f is not None]
        except ValueError:
            self.report(sc, n, 'the format text is malformed')
            return
        auto = 0
        for f in fields:
            k = re.split(r'[.\[]', f)[0]
            if k == '':
                k, auto = str(auto), auto + 1
            if k.isdigit() and int(k) >= len(n.args) or not k.isdigit() and k not in {x.arg for x in n.keywords}:
                self.report(sc, n, f'the format text asks for {{{f}}}, which is not given')

    @staticmethod
    def written(body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(ast.unparse(n))
        return out

    def check_import(self, n, sc):
        src = self.prog._absmod(n, sc.module)
        if any({'ImportError', 'ModuleNotFoundError', 'Exception'} & g for g in self.guard):
            return
        if n.level == 0 and src != self.prog.package and not src.startswith(self.prog.package + '.'):
            if self.libs.is_module(src.split('.')[0]) and src.split('.')[0] != '__future__':
                if not self.libs.is_module(src) and not self.libs.compiled(src):
                    self.report(sc, n, f'the module {src} does not exist')
                else:
                    for a in n.names:
                        if a.name != '*' and not self.libs.has(src, a.name):
                            self.report(sc, n, f'the module {src} has no {a.name}')
            return
        base = src[1:] if n.level else src[len(self.prog.package) + 1:] if src != self.prog.package else ''
        k = self.prog.modules.get(base or '__init__')
        if k is None:
            self.report(sc, n, f'the module {src} does not exist')
            return
        for a in n.names:
            if a.name != '*' and not (base == '' and a.name in self.prog.modules):
                names, star, _ = self.module_names[k.name]
                if a.name not in names and not star:
                    self.report(sc, n, f'the module {base or self.prog.package} has no {a.name}')

    def check_attr(self, n, sc):
        if any({'AttributeError', 'Exception'} & g for g in self.guard):
            return
        t = self.T(n.value, sc)
        self.sites['attributes'] += 1
        if not t:
            self.pending.setdefault(n.attr, []).append((sc, n))
            return
        names, bad = [], False
        for x in t:
            if x[0] == 'i':
                if self.has(x[1], n.attr):
                    return
                names.append(f'a {x[1].name}')
            elif x[0] == 'c':
                if self.has_on_class(x[1], n.attr):
                    return
                names.append(f'the class {x[1].name}')
            elif x[0] == 'm':
                mn, star, _ = self.module_names.get(x[1].name, ((), True, None))
                if n.attr in mn or star or n.attr in BUILTINS or x[1].name == '__init__' and n.attr in self.prog.modules:
                    return
                names.append(f'the module {x[1].name}')
            elif x[0] == 'super':
                c = x[1]
                if self.external(c) or n.attr in OF_OBJECT or any(
                        n.attr in k.methods or n.attr in k.class_attrs or n.attr in k.setters for k in c.mro()[1:]):
                    return
                names.append(f'no base class of {c.name}')
            elif x[0] == 'x':
                if n.attr in self.libs.attributes(x[1]):
                    return
                names.append(f'a {x[1].__name__}')
            elif x[0] == 'e':
                o = self.libs.python(x[1])
                if inspect.isclass(o) and not hasattr(o, n.attr):
                    names.append(f'the class {x[1]}')
                    bad = True
                    continue
                if not self.libs.is_module(x[1]):
                    self.pending.setdefault(n.attr, []).append((sc, n))
                    return
                if self.libs.has(x[1], n.attr):
                    return
                names.append(f'the module {x[1]}')
            elif x[0] in LIKE:
                if n.attr in LIKE[x[0]]:
                    return
                names.append(f'a {x[0]}')
            elif x[0] == 'none':
                continue
            else:
                self.pending.setdefault(n.attr, []).append((sc, n))
                return
            bad = True
        if bad and not self.hasattr_in(sc, n.attr):
            self.report(sc, n, f'{" or ".join(sorted(set(names)))} has no {n.attr}' if not names[0].startswith('no ') else f'{names[0]} has {n.attr}')

    def hasattr_in(self, sc, attr):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and
                   isinstance(x.args[1], ast.Constant) and x.args[1].value == attr for x in ast.walk(sc.node))

    def check_call(self, n, sc):
        if any({'TypeError', 'Exception'} & g for g in self.guard) and False:
            return
        t = self.T(n.func, sc)
        if not t:
            return
        problems = []
        for x in t:
            p = self.problem(x, n)
            if p is None:
                return
            problems.append(p)
        self.report(sc, n, problems[0])

    def problem(self, x, n):
        """why the call cannot work, None if it may; the callee is known"""
        if x[0] == 'f':
            self.sites['calls'] += 1
            f = x[1]
            if f.other_decorators:
                return None
            if f.cls is not None and f.cls in self.dynamic:
                return None
            bound = 1 if f.cls is not None and not f.is_static and x[2] else 0
            p = self.fits(f.node, n, bound)
            if p is None or f.cls is None:
                return p and f'{f.qual} {p}'
            return f'{f.qual} {p}'
        if x[0] == 'd':
            self.sites['calls'] += 1
            p = self.fits(x[1], n, 0)
            return p and f'{x[1].name} {p}'
        if x[0] == 'c':
            self.sites['calls'] += 1
            c = x[1]
            missing = self.abstract(c)
            if missing:
                return f'{c.name} is abstract ({missing} is missing)'
            f = c.find('__init__')
            if f is None:
                if self.external(c) or c.find('__new__') is not None:
                    return None
                if any(k.is_dataclass for k in c.mro()):
                    return self.fits_fields(c, n)
                if n.args and not isinstance(n.args[0], ast.Starred) or any(k.arg for k in n.keywords):
                    return f'{c.name} takes no arguments'
                return None
            if f.other_decorators:
                return None
            p = self.fits(f.node, n, 1)
            return p and f'{c.name} {p}'
        if x[0] == 'm':
            return f'the module {x[1].name} cannot be called'
        return None

    def abstract(self, c):
        if not any(str(b) in ('ABC', 'abc.ABC') for k in c.mro() for b in k.bases):
            return None
        names = {f.name for k in c.mro() for f in k.methods.values() if f.is_abstract}
        for a in sorted(names):
            f = c.find(a)
            if f is not None and f.is_abstract:
                return a
        return None

    def fits_fields(self, c, n):
        fields = c.dataclass_fields()
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        for k in n.keywords:
            if k.arg not in fields:
                return f'{c.name} has no field {k.arg}'
        if len(n.args) > len(fields):
            return f'{c.name} has only {len(fields)} fields'
        given = set(list(fields)[:len(n.args)]) | {k.arg for k in n.keywords}
        for name, (_, _, d) in fields.items():
            if d is None and name not in given:
                return f'{c.name} needs {name}'
        return None

    def fits(self, fn, n, bound):
        a = fn.args
        pos = [p.arg for p in a.posonlyargs + a.args][bound:]
        only = {p.arg for p in a.posonlyargs}
        kwonly = [p.arg for p in a.kwonlyargs]
        star = any(isinstance(x, ast.Starred) for x in n.args)
        starkw = any(k.arg is None for k in n.keywords)
        given = [x for x in n.args if not isinstance(x, ast.Starred)]
        if len(given) > len(pos) and a.vararg is None:
            return f'takes {len(pos)} positional arguments, {len(given)} are given'
        filled = set(pos[:len(given)]) if not star else set(pos[:next(i for i, x in enumerate(n.args) if isinstance(x, ast.Starred))])
        for k in n.keywords:
            if k.arg is None:
                continue
            if k.arg in filled and k.arg not in only:
                return f'gets {k.arg} twice'
            if (k.arg not in pos or k.arg in only) and k.arg not in kwonly and a.kwarg is None:
                return f'has no argument {k.arg}'
            filled.add(k.arg)
        if not star and not starkw:
            nd = len(a.defaults)
            allpos = [p.arg for p in a.posonlyargs + a.args]
            need = allpos[:len(allpos) - nd][bound:] + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            for x in need:
                if x not in filled:
                    return f'needs the argument {x}'
        return None

    # ------------------------------------------------------------------------------------------ order
    def order(self, sc):
        """a local variable is read where nothing can have set it"""
        if not isinstance(sc.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return
        stores, loads = {}, []

        def walk(n, path):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                stores.setdefault(n.name, []).append((n, path))
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, ast.Name):
                (stores.setdefault(n.id, []) if isinstance(n.ctx, ast.Store) else loads).append((n, path))
                return
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    stores.setdefault(a.asname or a.name.split('.')[0], []).append((n, path))
                return
            if isinstance(n, ast.ExceptHandler):
                if n.name:
                    stores.setdefault(n.name, []).append((n, path + [(n, 'handler')]))
                for x in ast.iter_child_nodes(n):
                    walk(x, path + [(n, 'handler')])
                return
            if isinstance(n, (ast.If, ast.IfExp)):
                walk(n.test, path)
                for arm in ('body', 'orelse'):
                    b = getattr(n, arm)
                    for x in b if isinstance(b, list) else [b]:
                        walk(x, path + [(n, arm)])
                return
            if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
                for f in ('iter', 'test', 'target'):
                    if getattr(n, f, None) is not None:
                        walk(getattr(n, f), path + ([(n, 'loop')] if f != 'iter' else []))
                for x in n.body:
                    walk(x, path + [(n, 'loop')])
                for x in n.orelse:
                    walk(x, path)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                inner_loads, inner = [], {}
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        stores.setdefault(x.target.id, []).append((x, path))
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in own and not any(
                            isinstance(y, ast.Lambda) for y in ast.walk(n)):
                        loads.append((x, path))
                return
            for x in ast.iter_child_nodes(n):
                walk(x, path)

        for n in sc.node.body:
            walk(n, [])
        params = {k for k, v in sc.bind.items() if any(b[0] in ('param', 'vararg', 'kwarg') for b in v)}
        for n, path in loads:
            if n.id in params or n.id in sc.globals or n.id not in stores or any(n.id in c for c in self.comps):
                continue
            if not any(self.reaches(s, sp, n, path) for s, sp in stores[n.id]):
                self.report(sc, n, f'{n.id} is read where nothing has set it')

    @staticmethod
    def reaches(s, sp, n, path):
        loops = {id(x) for x, k in path if k == 'loop'} & {id(x) for x, k in sp if k == 'loop'}
        if loops:
            return True
        for x, k in sp:
            if k in ('body', 'orelse') and (x, 'orelse' if k == 'body' else 'body') in path:
                return False
            if k == 'handler' and isinstance(s, ast.ExceptHandler) and s is x and (x, 'handler') not in path:
                return False
        a = (s.lineno, s.col_offset)
        b = (n.lineno, n.col_offset)
        if isinstance(s, ast.Name) or isinstance(s, ast.NamedExpr):
            # the target of an assignment stands before its value
            return a < b or s.lineno <= n.lineno <= getattr(s, 'end_lineno', s.lineno) and False
        return a <= b

    # ------------------------------------------------------------------------------------------ initialisation
    def initialised(self, c):
        """attributes that only methods other than the constructor set must not be read by others"""
        if self.external(c) or any(k in self.dynamic for k in c.mro()):
            return
        init = set()
        for k in c.mro():
            init |= set(k.methods) | set(k.class_attrs) | set(k.setters)
            if k.is_dataclass:
                init |= set(k.attr_types)
        todo, seen = [f for f in [c.find('__init__'), c.find('__new__'), c.find('__post_init__')] if f is not None], set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    if isinstance(n.ctx, ast.Store):
                        init.add(n.attr)
                    else:
                        for s in [c]:
                            g = s.find(n.attr)
                            if g is not None:
                                todo.append(g)
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and \
                        n.value.func.id == 'super' and f.cls in c.mro():
                    g = c.find(n.attr, after=f.cls)
                    if g is not None:
                        todo.append(g)
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(self.prog.resolve(f.module, n.value.id), ClassInfo):
                    g = self.prog.resolve(f.module, n.value.id).find(n.attr)
                    if g is not None and g.cls in c.mro():
                        todo.append(g)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    return
                elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == 'self' for a in n.args) and isinstance(n.func, ast.Name):
                    g = self.prog.resolve(f.module, n.func.id)
                    if isinstance(g, FuncInfo):
                        me = [p.arg for p, a in zip(g.node.args.args, n.args) if isinstance(a, ast.Name) and a.id == 'self']
                        for x in ast.walk(g.node):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in me:
                                init.add(x.attr)
        f = c.find('__init__')
        if f is not None and not f.overlay and any('inspect.signature(self.__init__)' in ast.unparse(g.node) for k in c.mro() for g in k.methods.values()):
            a = f.node.args
            for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs:
                if x.arg not in init:
                    sc = next((s for s in self.functions if s.node is f.node), None)
                    if sc is not None:
                        self.report(sc, x, f'what is given for {x.arg} is not kept, the infos of a {c.name} lack it')
        if not self.abstract(c):
            for k in c.mro():
                for a, l in sorted(self.stores_of(k).items()):
                    l = [(v, s) for v, s in l if s.cls is not None and s.cls in c.mro() or
                         k is c and not any(a in self.stores_of(x) for x in c.all_subclasses())]
                    if not l or a in init or a in k.setters or any(getattr(s.node, 'name', '') in ('__init__', '__new__', '__post_init__') and s.cls in c.mro() for _, s in l):
                        continue
                    reads = [x for x in self.loads().get(a, ()) if x[0] not in [s for _, s in l]]
                    reads = [x for x in reads if not self.hasattr_in(x[0], a) and self.may_be(x[0], x[1].value, c)]
                    if reads:
                        self.report(l[0][1], reads[0][1], f'{a} is set here only, not by the constructor of {c.name}, but read in {self.title(reads[0][0])}')
        for f in c.methods.values():
            if f.is_static or f.is_classmethod or f.overlay:
                continue
            sc = next((s for s in self.functions if s.node is f.node), None)
            if sc is None or sc.me is None:
                continue
            here = {}
            for n in ast.walk(f.node):
                if isinstance(n, (ast.stmt, ast.comprehension, ast.NamedExpr)) and not isinstance(n, (ast.If, ast.While, ast.Try, ast.FunctionDef)):
                    for x in ast.walk(n.target) if isinstance(n, ast.For) else ast.walk(n):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == sc.me:
                            at = (n.target.end_lineno, n.target.end_col_offset) if isinstance(n, ast.For) else (n.end_lineno, n.end_col_offset)
                            here[x.attr] = min(here.get(x.attr, at), at)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == sc.me:
                    a = n.attr
                    if a in init or a in here and here[a] <= (n.lineno, n.col_offset) or not self.has(c, a):
                        continue
                    if not any(a in self.stores_of(k) for k in c.mro()):
                        continue  # stored by subclasses only
                    if self.hasattr_in(sc, a) or self.set_before(c, f, a, set()):
                        continue
                    self.report(sc, n, f'{a} is read, but the constructor of {c.name} does not set it')


    def loads(self):
        if not hasattr(self, '_loads'):
            self._loads = {}
            for sc in self.scopes:
                if not getattr(sc, 'is_class', False) and not isinstance(sc.node, ast.Lambda):
                    for n in _fn_nodes(sc.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                            self._loads.setdefault(n.attr, []).append((sc, n))
        return self._loads

    def may_be(self, sc, e, c):
        """the expression is known to be of the class"""
        t = self.T(e, sc)
        return t is not None and any(x[0] == 'i' and (x[1] is c or c in x[1].mro()) for x in t)

    def ignored(self, sc):
        """a public function accepts what it never looks at"""
        f = sc.fi
        if f is None or f.overlay or f.is_abstract or f.other_decorators or f.name.startswith('_') and f.name != '__init__':
            return
        if f.cls is not None and f.name != '__init__' and self.external(f.cls):
            return
        kin = [k.methods[f.name] for k in f.cls.mro()[1:] + f.cls.all_subclasses() if f.name in k.methods] \
            if f.cls is not None and f.name != '__init__' else []
        kin = {x.arg for g in kin for x in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs}
        body = [n for n in f.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        if not body or all(isinstance(n, (ast.Pass, ast.Raise)) for n in body):
            return
        used = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)}
        if used & {'locals', 'vars'}:
            return
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg not in used and x.arg not in kin and self.default(f.node, x.arg) is not None and not x.arg.startswith('_'):
                self.report(sc, x, f'what is given for {x.arg} has no effect')

    def set_before(self, c, f, a, seen):
        """a helper only methods call that set the attribute before"""
        if not f.name.startswith('_') or f.name.startswith('__') or f in seen:
            return False
        calls = []
        for g in {x for k in c.mro() + c.all_subclasses() for x in k.methods.values()}:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and n.attr == f.name and isinstance(n.ctx, ast.Load):
                    calls.append((g, n))
        if not calls or self.mentioned.get(f.name, 0) > len(calls):
            return False
        for g, n in calls:
            stored = [x for x in ast.walk(g.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == a]
            if not any((x.lineno, x.col_offset) < (n.lineno, n.col_offset) for x in stored) and not self.set_before(c, g, a, seen | {f}):
                return False
        return True


_memo = {}


def analysis(prog):
    if id(prog) not in _memo:
        _memo[id(prog)] = Names(prog)
    return _memo[id(prog)]


def existing(prog):
    n = analysis(prog)
    return sorted(n.bad.items()), dict(n.sites)
