"""Parsing of the analysed package: modules, classes, functions, annotations, overlays."""

import ast
import os


class AnalysisBroken(Exception):
    """an anchor vanished or the source does not parse: the check cannot answer (error exit)"""


class FuncInfo:
    def __init__(self, node, module, cls=None, overlay=False):
        self.node, self.module, self.cls, self.overlay = node, module, cls, overlay
        self.name = node.name
        decs = [_dec_name(d) for d in node.decorator_list]
        self.is_property = any(d in ('property', 'cached_property', 'functools.cached_property') for d in decs)
        self.is_cached = any(d in ('cached_property', 'functools.cached_property') for d in decs)
        self.is_static = 'staticmethod' in decs
        self.is_classmethod = 'classmethod' in decs
        self.is_abstract = any(d and d.endswith('abstractmethod') for d in decs)
        known = ('property', 'cached_property', 'functools.cached_property', 'staticmethod', 'classmethod',
                 'abstractmethod', 'abc.abstractmethod')
        self.other_decorators = [d for d in decs if d not in known and not (d or '').endswith('.setter')]
        self.is_setter = any((d or '').endswith('.setter') for d in decs)
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node))

    @property
    def qual(self):
        return f'{self.cls.name}.{self.name}' if self.cls else self.name

    @property
    def where(self):
        return f'{self.module.relpath}:{self.node.lineno} {self.qual}'


def written_later(prog):
    """names of attributes that some code stores, or changes the container of, outside a constructor"""
    if getattr(prog, '_written_later', None) is None:
        out = set()
        for m in prog.modules.values():
            if not m.relpath.startswith('flixOpt'):
                continue
            for fn in ast.walk(m.tree):
                if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                for n in _own_nodes(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and fn.name != '__init__':
                        out.add(n.attr)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) \
                            and fn.name != '__init__':
                        out.add(n.value.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in _CHANGING \
                            and isinstance(n.func.value, ast.Attribute) and fn.name != '__init__':
                        out.add(n.func.value.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        out.add(n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '*')
        prog._written_later = out
    return prog._written_later


_CHANGING = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem'}


def keeps_its_value(prog, fi, seen=()):
    """a cached value stays right: the function only reads what is settled when the object is made. What the model of an
    element reads from its element is settled, too: a model is made for one calculation"""
    if fi in seen:
        return True
    late = written_later(prog)
    model = fi.cls is not None and any(c.name == 'ElementModel' for c in fi.cls.mro())
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fi.node:
            continue
        if isinstance(n, ast.Name) and n.id == 'CONFIG' and not model:
            return False
        if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
            continue
        chain = [n.attr]
        b = n.value
        while isinstance(b, ast.Attribute):
            chain.append(b.attr)
            b = b.value
        if isinstance(b, ast.Name) and (b.id in fi.module.imports or model and b.id == 'self' and chain[-1] == 'element'):
            continue
        own = fi.cls.find(n.attr) if fi.cls is not None and isinstance(b, ast.Name) and b.id == 'self' and len(chain) == 1 else None
        if own is not None:
            if not keeps_its_value(prog, own, seen + (fi,)):
                return False
            continue
        others = [c.methods[n.attr] for m in prog.modules.values() for c in m.classes.values() if n.attr in c.methods]
        if any(not keeps_its_value(prog, o, seen + (fi,)) for o in others if o is not fi):
            return False
        if n.attr in late:
            return False
    return True


def _own_nodes(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def _dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        b = _dec_name(d.value)
        return f'{b}.{d.attr}' if b else d.attr
    return None


class ClassInfo:
    def __repr__(self):
        return 'class ' + self.name

    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.base_exprs = node.bases
        self.bases = []  # ClassInfo or str (external)
        self.methods = {}
        self.setters = {}
        self.class_attrs = {}  # name -> expr
        self.attr_types = {}  # name -> (annotation expr, module)
        self.subclasses = []
        self._mro = None

    def mro(self):
        if self._mro is None:
            self._mro = self._compute()
        return self._mro

    def _compute(self):
        seqs = [b.mro()[:] for b in self.bases if isinstance(b, ClassInfo)]
        seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                raise AnalysisBroken(f'class order of {self.name} cannot be resolved')
            out.append(h)
            for s in seqs:
                if s and s[0] is h:
                    del s[0]

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, name):
        for c in self.mro():
            if name in c.class_attrs:
                return c.class_attrs[name], c
        return None

    def all_subclasses(self):
        out, todo = [], list(self.subclasses)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subclasses)
        return out

    def external_bases(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, ClassInfo)]

    def is_a(self, other):
        return other in self.mro()

    @property
    def is_dataclass(self):
        return any((_dec_name(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1] == 'dataclass'
                   for d in self.node.decorator_list)

    def dataclass_fields(self):
        """name -> (annotation, module, default expr or None), in the order of the generated constructor"""
        out = {}
        for k in reversed(self.mro()):
            if k.is_dataclass:
                for n in k.node.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        out[n.target.id] = (n.annotation, k.module, n.value)
        return out


class ModuleInfo:
    def __init__(self, name, relpath, tree):
        self.name, self.relpath, self.tree = name, relpath, tree
        self.functions, self.classes, self.imports, self.assigns = {}, {}, {}, {}


def _defines(n):
    if isinstance(n, (ast.Assign, ast.AnnAssign)):
        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
            if isinstance(t, ast.Name):
                yield t.id
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
        for a in n.names:
            yield a.asname or a.name.split('.')[0]
    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        yield n.name


def _top_statements(body):
    for n in body:
        yield n
        if isinstance(n, ast.If):
            yield from _top_statements(n.body)
            yield from _top_statements(n.orelse)
        elif isinstance(n, ast.Try):
            # what the handlers define only stands in for an optional library that is not there
            named = {x for s in ast.walk(ast.Module(n.body, [])) for x in _defines(s)}
            for h in n.handlers:
                yield from (s for s in _top_statements(h.body) if not (isinstance(s, ast.stmt) and set(_defines(s)) & named))
            yield from _top_statements(n.body)
            yield from _top_statements(n.orelse)
            yield from _top_statements(n.finalbody)
        elif isinstance(n, ast.With):
            yield from _top_statements(n.body)


class Program:
    def __init__(self, root, package='flixOpt', overlays=None):
        """overlays: list of (module name, source text, display path)"""
        self.root, self.package = root, package
        self.modules, self.classes, self.functions = {}, {}, {}
        pkg = os.path.join(root, package)
        if not os.path.isdir(pkg):
            raise AnalysisBroken(f'package directory {pkg} not found')
        for base, dirs, files in os.walk(pkg):
            dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '__')))
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(base, f)
                    rel = os.path.relpath(path, pkg)[:-3].replace(os.sep, '.')
                    with open(path, encoding='utf-8') as fh:
                        src = fh.read()
                    try:
                        tree = ast.parse(src)
                    except SyntaxError as e:
                        raise AnalysisBroken(f'{path} does not parse: {e}') from e
                    self._add(rel, os.path.relpath(path, root), tree)
        for mod, text, disp in overlays or []:
            self._overlay(mod, text, disp)
        self._link()

    def _add(self, name, rel, tree):
        m = ModuleInfo(name, rel, tree)
        self.modules[name] = m
        for n in _top_statements(tree.body):
            if isinstance(n, ast.FunctionDef):
                m.functions[n.name] = FuncInfo(n, m)
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = self._class(n, m)
            else:
                self._import_or_assign(n, m)

    def _import_or_assign(self, n, m):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    m.imports[a.asname] = ('mod', a.name)
                else:
                    m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                m.imports[a.asname or a.name] = ('from', self._absmod(n, m), a.name)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    m.assigns[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            m.assigns[n.target.id] = n.value

    def _absmod(self, n, m):
        if n.level:
            return '.' + (n.module or '')
        return n.module or ''

    def _class(self, n, m, into=None):
        c = into or ClassInfo(n, m)
        for x in n.body:
            if isinstance(x, ast.FunctionDef):
                f = FuncInfo(x, m, c, overlay=into is not None)
                if f.is_setter:
                    c.setters[x.name] = f
                else:
                    c.methods[x.name] = f
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        c.class_attrs[t.id] = x.value
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                c.attr_types[x.target.id] = (x.annotation, m)
                if x.value is not None:
                    c.class_attrs[x.target.id] = x.value
        return c

    def _overlay(self, mod, text, disp):
        if mod not in self.modules:
            raise AnalysisBroken(f'module {self.package}/{mod}.py, which the reference describes, is gone')
        m = self.modules[mod]
        tree = ast.parse(text)
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                if n.name in m.functions:
                    f = FuncInfo(n, m, overlay=True)
                else:
                    f = FuncInfo(n, m, overlay=True)
                m.functions[n.name] = f
            elif isinstance(n, ast.ClassDef):
                if n.name in m.classes:
                    self._class(n, m, into=m.classes[n.name])
                elif any(n.name in k.classes for k in self.modules.values()):
                    k = next(k for k in self.modules.values() if n.name in k.classes)
                    self._class(n, k, into=k.classes[n.name])
                else:
                    m.classes[n.name] = self._class(n, m)
            else:
                self._import_or_assign(n, m)

    def _link(self):
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)
            for f in m.functions.values():
                self.functions.setdefault(f.name, f)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    name = _dec_name(b)
                    r = self.resolve(m, name.split('.')[-1]) if name else None
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
                        r.subclasses.append(c)
                    else:
                        c.bases.append(name or '?')
        for m in self.modules.values():
            for c in m.classes.values():
                self._attr_types(c)

    def _attr_types(self, c):
        for f in list(c.methods.values()):
            if f.overlay:
                continue
            params = {a.arg: a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
            self._attrs_stored(c, f, params, 'self')
            for n in ast.walk(f.node):  # helpers that store on the object for the method
                if isinstance(n, ast.Call):
                    self._attrs_of_helper(c, f, params, n)

    def _attrs_stored(self, c, f, params, me):
        for n in ast.walk(f.node):
            t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else None
            if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me):
                continue
            if isinstance(n, ast.AnnAssign):
                c.attr_types.setdefault(t.attr, (n.annotation, f.module))
                continue
            v = n.value
            if isinstance(v, ast.Name) and params.get(v.id) is not None:
                c.attr_types.setdefault(t.attr, (params[v.id], f.module))
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                if isinstance(self.resolve(f.module, v.func.id), ClassInfo):
                    c.attr_types.setdefault(t.attr, (v.func, f.module))

    def _attrs_of_helper(self, c, f, params, call):
        fn, args = call.func, list(call.args)
        if isinstance(fn, ast.Name) and any(isinstance(x, ast.Name) and x.id == 'self' for x in args + [k.value for k in call.keywords]):
            h = f.module.functions.get(fn.id)
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self':
            h = c.methods.get(fn.attr)
            args = [fn.value] + args
        else:
            return
        if h is None or h is f or h.overlay or h.module is not f.module or any(isinstance(x, ast.Starred) for x in args):
            return
        names = [a.arg for a in h.node.args.posonlyargs + h.node.args.args]
        given = {**dict(zip(names, args)), **{k.arg: k.value for k in call.keywords if k.arg}}
        me = next((k for k, v in given.items() if isinstance(v, ast.Name) and v.id == 'self'), None)
        if me is None:
            return
        own = {a.arg: a.annotation for a in h.node.args.posonlyargs + h.node.args.args + h.node.args.kwonlyargs}
        types = {k: own.get(k) if own.get(k) is not None else params.get(v.id) if isinstance(v, ast.Name) else None for k, v in given.items()}
        self._attrs_stored(c, h, types, me)

    def has_attribute(self, c, name):
        """may an object declared as c have that attribute? (anything stored on it anywhere counts)"""
        if name.startswith('__'):
            return True
        if not hasattr(self, '_stored'):
            self._stored, self._own = set(), {}
            for m in self.modules.values():
                for top in m.tree.body:
                    for n in ast.walk(top):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                                isinstance(top, ast.ClassDef) and _is_self_attr(n)):
                            self._stored.add(n.attr)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                            self._stored.add(None)
        if name in self._stored or None in self._stored:
            return True
        for k in c.mro() + c.all_subclasses():
            own = self._own.get(k)
            if own is None:
                own = set(k.methods) | set(k.class_attrs) | set(k.attr_types) | set(k.setters)
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and _is_self_attr(n):
                        own.add(n.attr)
                self._own[k] = own
            if name in own or any(str(b) not in ('object', 'ABC', 'abc.ABC') for b in k.external_bases()):
                return True
        return False

    def resolve(self, module, name):
        """global name -> ClassInfo | FuncInfo | ModuleInfo | ('ext', dotted) | ('expr', expr, module) | None"""
        seen = set()
        while True:
            if (module.name, name) in seen:
                return None
            seen.add((module.name, name))
            if name in module.classes:
                return module.classes[name]
            if name in module.functions:
                return module.functions[name]
            if name in module.assigns:
                return ('expr', module.assigns[name], module)
            imp = module.imports.get(name)
            if imp is None:
                return None
            if imp[0] == 'mod':
                return self._module_or_ext(imp[1])
            _, src, orig = imp
            if src.startswith('.'):
                sm = src[1:]
            elif src == self.package:
                sm = ''
            elif src.startswith(self.package + '.'):
                sm = src[len(self.package) + 1:]
            else:
                return ('ext', f'{src}.{orig}')
            if sm == '':
                if orig in self.modules:
                    return self.modules[orig]
                sm = '__init__'
            if sm not in self.modules:
                return ('ext', f'{src}.{orig}')
            module, name = self.modules[sm], orig

    def _module_or_ext(self, dotted):
        if dotted == self.package:
            return self.modules.get('__init__')
        if dotted.startswith(self.package + '.'):
            m = self.modules.get(dotted[len(self.package) + 1:])
            if m:
                return m
        return ('ext', dotted)

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f'class {name} not found in {self.package}')
        return c

    def func(self, qual):
        if '.' in qual:
            c, f = qual.split('.')
            r = self.cls(c).find(f)
        else:
            r = self.functions.get(qual)
        if r is None:
            raise AnalysisBroken(f'function {qual} not found in {self.package}')
        return r


def _is_self_attr(t):
    return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'


# ------------------------------------------------------------------------------------------------- types
# ('cls', ClassInfo) | ('list', t) | ('dict', k, v) | ('tuple', [t..]) | ('set', t) | 'str' | 'num' | 'bool' | None
def parse_type(prog, ann, module, depth=0):
    if ann is None or depth > 8:
        return None
    if isinstance(ann, ast.Constant):
        if isinstance(ann.value, str):
            try:
                return parse_type(prog, ast.parse(ann.value, mode='eval').body, module, depth + 1)
            except SyntaxError:
                return None
        return None
    if isinstance(ann, ast.List) and len(ann.elts) == 1:  # sloppy annotation [X]
        return parse_type(prog, ann.elts[0], module, depth + 1)
    if isinstance(ann, ast.Name):
        n = ann.id
        if n == 'str':
            return 'str'
        if n in ('int', 'float', 'Skalar', 'Numeric', 'Scalar'):
            return 'num'
        if n == 'bool':
            return 'bool'
        if n in ('list', 'List'):
            return ('list', None)
        if n in ('dict', 'Dict'):
            return ('dict', None, None)
        if n in ('set', 'Set'):
            return ('set', None)
        if n == 'range':
            return ('list', 'num')
        r = prog.resolve(module, n)
        if isinstance(r, ClassInfo):
            return ('cls', r)
        if isinstance(r, tuple) and r[0] == 'expr':
            return parse_type(prog, r[1], r[2], depth + 1)
        if n in prog.classes:
            return ('cls', prog.classes[n])
        return None
    if isinstance(ann, ast.Attribute):
        if ann.attr in ('ndarray',):
            return 'num'
        if ann.attr in ('DataFrame', 'Series'):
            return 'frame'
        return None
    if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):  # X | Y
        todo, parts = [ann], []
        while todo:
            n = todo.pop()
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
                todo += [n.right, n.left]
            else:
                parts.append(n)
        return parse_type(prog, ast.Subscript(ast.Name('Union'), ast.Tuple(parts)), module, depth + 1)
    if isinstance(ann, ast.Subscript):
        h = _dec_name(ann.value)
        h = h.split('.')[-1] if h else None
        sl = ann.slice
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        if h == 'Optional':
            return parse_type(prog, elts[0], module, depth + 1)
        if h == 'Literal':
            return 'str' if all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in elts) else None
        if h == 'Union':
            ts = [parse_type(prog, e, module, depth + 1) for e in elts
                  if not (isinstance(e, ast.Constant) and e.value is None)]
            cs = [t for t in ts if t is not None]
            if len(ts) == 1 or (cs and all(t == cs[0] for t in ts)):
                return ts[0]
            if cs and all(isinstance(t, tuple) and t[0] == 'cls' for t in ts):
                return ('union', tuple(t[1] for t in ts))
            if cs and all(isinstance(t, tuple) and t[0] == 'list' or t == 'num' for t in ts) and any(
                    t == ('list', 'num') for t in ts):
                return ('list', 'num') if all(t == ('list', 'num') for t in ts) else None
            return None
        if h in ('List', 'list', 'Sequence', 'Iterable'):
            return ('list', parse_type(prog, elts[0], module, depth + 1))
        if h in ('Set', 'set', 'FrozenSet'):
            return ('set', parse_type(prog, elts[0], module, depth + 1))
        if h in ('Dict', 'dict'):
            return ('dict', parse_type(prog, elts[0], module, depth + 1),
                    parse_type(prog, elts[1], module, depth + 1) if len(elts) > 1 else None)
        if h in ('Tuple', 'tuple'):
            return ('tuple', tuple(parse_type(prog, e, module, depth + 1) for e in elts))
        if h in ('ndarray',):
            return 'num'
    return None
