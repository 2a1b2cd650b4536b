"""Whole-package dataflow: which containers are changed in place, and where the order of an unordered collection
(or an address, a hash, a clock, a random number) can reach what is computed."""

import ast

from .program import ClassInfo, FuncInfo, ModuleInfo

CHANGE = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add',
          'discard', 'fill', 'put', 'itemset', 'resize', 'partition', 'appendleft', 'popleft', 'rotate', 'subtract',
          'intersection_update', 'difference_update', 'symmetric_difference_update', 'move_to_end', '__setitem__', '__delitem__', 'setflags', 'setfield'}
SAME = {'loc', 'iloc', 'at', 'iat', 'values', 'T', 'flat', 'real', 'imag', 'flags', 'index', 'columns', 'base', 'array'}  # attributes that share their object's data
VIEW = {'ravel', 'reshape', 'view', 'squeeze', 'transpose', 'to_numpy', '__iter__', 'swapaxes', 'setdefault'}
COPY1 = {'copy', 'union', 'intersection', 'difference', 'symmetric_difference', 'fromkeys'}
ALIAS = {'np.asarray', 'numpy.asarray', 'np.atleast_1d', 'numpy.atleast_1d', 'np.ravel', 'numpy.ravel', 'np.reshape',
         'numpy.reshape', 'typing.cast', 'cast', 'np.asanyarray', 'numpy.asanyarray', 'np.squeeze', 'numpy.squeeze', 'iter',
         'np.atleast_2d', 'numpy.atleast_2d'}
WRAP = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'chain',
        'itertools.chain', 'next', 'copy.copy', 'collections.OrderedDict', 'OrderedDict', 'defaultdict', 'itertools.islice',
        'collections.defaultdict', 'collections.ChainMap', 'ChainMap', 'max', 'min'}
MUTE_FUNCS = {'np.copyto': 0, 'np.put': 0, 'np.place': 0, 'np.putmask': 0, 'np.fill_diagonal': 0, 'random.shuffle': 0,
              'np.random.shuffle': 0, 'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0, 'bisect.insort': 0}
CHANCE = ('random.', 'np.random.', 'numpy.random.', 'uuid.', 'secrets.', 'os.listdir', 'os.scandir', 'glob.', 'os.urandom',
          'os.getpid', 'id', 'hash', 'time.time', 'time.perf_counter', 'os.walk')
ORDERLESS = {'len', 'sorted', 'min', 'max', 'any', 'all', 'set', 'frozenset', 'isinstance', 'bool', 'Counter',
             'collections.Counter', 'print', 'type', 'issubclass'}
ORDERED = {'list', 'tuple', 'enumerate', 'zip', 'map', 'filter', 'iter', 'next', 'sum', 'str', 'repr', 'dict.fromkeys',
           'np.array', 'numpy.array', 'np.asarray', 'reversed', 'itertools.chain', 'chain', 'dict', 'json.dump', 'json.dumps',
           'yaml.dump', 'pd.Index', 'pd.Series', 'np.fromiter', 'collections.OrderedDict', 'format'}
BUILTIN = {n for t in (list, dict, set, str, tuple, frozenset) for n in dir(t)} | SAME | VIEW | CHANGE
SETISH = {'union', 'intersection', 'difference', 'symmetric_difference'}


class Val:
    __slots__ = ('own', 'inner', 'unordered', 'cls', 'parts')

    def __init__(self, own=frozenset(), inner=frozenset(), unordered=None, cls=None, parts=None):
        self.own, self.inner, self.unordered, self.cls = frozenset(own), frozenset(inner), unordered, cls
        self.parts = parts  # of a tuple: one Val for each place

    def join(self, o):
        if o is self:
            return self
        parts = None
        if self.parts and o.parts and len(self.parts) == len(o.parts):
            parts = tuple(a.join(b) for a, b in zip(self.parts, o.parts))
        return Val(self.own | o.own, self.inner | o.inner, self.unordered or o.unordered, self.cls if self.cls is o.cls else None, parts)

    def key(self):
        return self.own, self.inner, bool(self.unordered), self.cls, self.parts and tuple(x.key() for x in self.parts)


NIL = Val()


class Fn:
    def __init__(self, fi, qual):
        self.fi, self.qual = fi, qual
        a = fi.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.positional = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.extra = {}  # param -> unordered description passed by some caller
        self.ret = NIL
        self.changed = {}  # token -> where


class Lints:
    def __init__(self, prog):
        self.prog = prog
        self.fns = {}
        self.attrs = {}  # (class, attr) -> Val
        self.by_name = {}
        self.changed = {}  # token -> where it is changed
        self.order = {}  # where -> text
        self.sites = {'changes': 0, 'iterations': 0, 'calls': 0, 'unordered': set(), 'functions': 0}
        for m in prog.modules.values():
            if m.relpath.startswith('reference'):
                continue
            for f in m.functions.values():
                self._fn(f, f'{m.name}.{f.name}')
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    if not f.overlay:
                        self._fn(f, f'{m.name}.{c.name}.{f.name}' + ('=' if f.is_setter else ''))
        self.sites['functions'] = len(self.fns)
        for _ in range(12):
            self.again = False
            self.sites.update(changes=0, iterations=0, calls=0)
            for fn in list(self.fns.values()):
                Walk(self, fn).run()
            if not self.again:
                break

    def _fn(self, f, q):
        self.fns[q] = Fn(f, q)
        self.by_name.setdefault(f.name, []).append(self.fns[q])

    def of(self, fi):
        for fn in self.by_name.get(fi.name, []):
            if fn.fi is fi:
                return fn

    def attr(self, cls, name):
        out = NIL
        for c in cls.mro() + cls.all_subclasses():
            v = self.attrs.get((c.module.name, c.name, name))
            if v is not None:
                out = out.join(v) if out is not NIL else v
        return out

    def set_attr(self, cls, name, v):
        k = (cls.module.name, cls.name, name)
        old = self.attrs.get(k)
        new = v if old is None else old.join(v)
        if old is None or new.key() != old.key():
            self.attrs[k] = new
            self.again = True

    def change(self, toks, where):
        for t in toks:
            if t not in self.changed:
                self.changed[t] = where
                self.again = True


class Walk:
    def __init__(self, lints, fn):
        self.L, self.fn, self.fi = lints, fn, fn.fi
        self.env = {}
        self.m = fn.fi.module
        self.ret = NIL
        self.yielded = False

    def where(self, n):
        return f'{self.m.relpath}:{n.lineno} {self.fi.qual}'

    def run(self):
        fn = self.fn
        a = self.fi.node.args
        first = True
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if first and self.fi.cls is not None and not self.fi.is_static:
                self.env[x.arg] = Val(cls=self.fi.cls)
            else:
                self.env[x.arg] = Val({('p', fn.qual, x.arg)}, {('pi', fn.qual, x.arg)}, fn.extra.get(x.arg) or self.set_type(x.annotation),
                                      self.class_type(x.annotation))
            first = False
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.env[x.arg] = Val((), {('pi', fn.qual, x.arg)})
        self.block(self.fi.node.body)
        r = self.ret
        if r.key() != fn.ret.key():
            j = fn.ret.join(r) if fn.ret is not NIL else r
            if j.key() != fn.ret.key():
                fn.ret = j
                self.L.again = True

    def set_type(self, ann):
        if ann is None:
            return None
        for n in ast.walk(ann):
            name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if name in ('set', 'Set', 'frozenset', 'FrozenSet', 'AbstractSet'):
                return 'declared as a set'
        return None

    def class_type(self, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).endswith('Optional'):
            return self.class_type(ann.slice)
        if isinstance(ann, ast.Name):
            r = self.L.prog.resolve(self.m, ann.id)
            return r if isinstance(r, ClassInfo) else None
        return None

    # ------------------------------------------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def joined(self, *branches):
        env0 = dict(self.env)
        outs = []
        for b in branches:
            self.env = dict(env0)
            b()
            outs.append(self.env)
        out = {}
        for e in outs:
            for k, v in e.items():
                out[k] = out[k].join(v) if k in out else v
        self.env = out

    def stmt(self, s):
        t = type(s)
        if t in (ast.Expr,):
            self.ev(s.value)
        elif t is ast.Assign:
            v = self.ev(s.value)
            for x in s.targets:
                self.assign(x, v, s)
        elif t is ast.AnnAssign:
            v = self.ev(s.value) if s.value is not None else NIL
            d = self.set_type(s.annotation) if not isinstance(s.annotation, ast.Constant) else None
            if d and (s.value is None or v.unordered):
                v = Val(v.own, v.inner, d, v.cls)
            if s.value is not None:
                self.assign(s.target, v, s)
        elif t is ast.AugAssign:
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.env.get(s.target.id, NIL)
                if old.own and self.maybe_container(s.target.id, old, s.value):
                    self.changes(old.own, s)
                self.env[s.target.id] = Val(old.own, old.inner | v.inner | v.own, old.unordered, old.cls)
            elif isinstance(s.target, ast.Attribute):
                old = self.ev(s.target)
                if self.containerish(s.value):
                    self.changes(old.own, s)
                base = self.ev(s.target.value)
                if base.cls is not None:
                    self.L.set_attr(base.cls, s.target.attr, Val(old.own, old.inner | v.inner, old.unordered))
            else:
                self.assign(s.target, v, s)
            if v.unordered and isinstance(s.op, ast.Add):
                self.out_of_order(s, v, 'its elements are appended')
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    self.changes(self.ev(x.value).own, s)
        elif t is ast.If:
            self.ev(s.test)
            self.joined(lambda: self.block(s.body), lambda: self.block(s.orelse))
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(s.iter)
            self.L.sites['iterations'] += 1
            if it.unordered and not self.commutes(s.body):
                self.out_of_order(s, it, 'it is iterated over')

            def go():
                for _ in range(2):
                    self.assign(s.target, Val(it.inner, it.inner), s)
                    self.block(s.body)
            self.joined(lambda: None, go)
            self.block(s.orelse)
        elif t is ast.While:
            self.ev(s.test)

            def go2():
                for _ in range(2):
                    self.block(s.body)
                    self.ev(s.test)
            self.joined(lambda: None, go2)
            self.block(s.orelse)
        elif t in (ast.With, ast.AsyncWith):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s)
            self.block(s.body)
        elif t is ast.Try:
            def body():
                self.block(s.body)
                self.block(s.orelse)
            self.joined(lambda: None, body, *[lambda h=h: self.block(h.body) for h in s.handlers])
            self.block(s.finalbody)
        elif t is ast.Return:
            if s.value is not None:
                v = self.ev(s.value)
                self.ret = self.ret.join(v) if self.ret is not NIL else v
        elif t in (ast.FunctionDef, ast.Lambda):
            saved = dict(self.env)
            for x in s.args.args + s.args.kwonlyargs:
                self.env[x.arg] = NIL
            self.block(s.body)
            self.env = saved
            self.env[s.name] = NIL
        elif t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc, quiet=True)
        elif t is ast.Assert:
            self.ev(s.test)

    def containerish(self, e):
        return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Tuple))

    def maybe_container(self, name, old, e):
        if self.containerish(e):
            return True
        for fnp in self.fi.node.args.args + self.fi.node.args.kwonlyargs:
            if fnp.arg == name and fnp.annotation is not None:
                s = ast.unparse(fnp.annotation)
                return any(k in s for k in ('ndarray', 'List', 'list', 'Dict', 'dict', 'Numeric', 'Series', 'DataFrame', 'Set', 'set'))
        return any(t[0] == 'pi' for t in old.own) or bool(old.own)

    def commutes(self, body):
        """a loop body whose repetitions may be done in any order: membership, deletion, checks"""
        for s in body:
            if isinstance(s, (ast.Pass, ast.Continue, ast.Raise, ast.Assert, ast.Delete)):
                continue
            if isinstance(s, ast.If) and self.commutes(s.body) and self.commutes(s.orelse):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr in ('add', 'discard', 'debug', 'info', 'warning', 'error', 'critical', 'remove'):
                continue
            if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
                continue
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                continue
            return False
        return True

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.unordered:
                self.out_of_order(s, v, 'it is unpacked')
            places = v.parts if v.parts and len(v.parts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts) else None
            for i, x in enumerate(t.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, places[i] if places else Val(v.inner, v.inner), s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.changes(b.own, s)
            n = self.root(t.value)
            if isinstance(n, ast.Name) and n.id in self.env:
                o = self.env[n.id]
                self.env[n.id] = Val(o.own, o.inner | v.own | v.inner, o.unordered, o.cls)
            elif isinstance(n, ast.Attribute):
                bb = self.ev(n.value)
                if bb.cls is not None:
                    self.L.set_attr(bb.cls, n.attr, Val((), v.own | v.inner))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if b.cls is not None:
                self.L.set_attr(b.cls, t.attr, v)
            elif t.attr in ('columns', 'index', 'name', 'values', 'shape', 'flags', 'dtypes', 'writeable', 'dtype', 'strides',
                            'names'):
                self.changes(b.own, s)

    def root(self, n):
        while isinstance(n, ast.Subscript) or isinstance(n, ast.Attribute) and n.attr in SAME:
            n = n.value
        return n

    def changes(self, own, n):
        self.L.sites['changes'] += 1
        if own:
            self.L.change(own, self.where(n))

    def out_of_order(self, n, v, how):
        self.L.order[self.where(n)] = f'{v.unordered}: {how}: {ast.unparse(n).splitlines()[0][:120]}'

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e, quiet=False):
        t = type(e)
        if t is ast.Name:
            return self.env.get(e.id, NIL)
        if t is ast.Constant:
            return NIL
        if t is ast.Attribute:
            b = self.ev(e.value)
            if b.cls is not None:
                fi = b.cls.find(e.attr)
                if fi is not None:
                    if fi.is_property:
                        fn = self.L.of(fi)
                        return self.returned(fn, {}, b) if fn else NIL
                    return NIL
                v = self.L.attr(b.cls, e.attr)
                ty = None
                for c in b.cls.mro():
                    if e.attr in c.attr_types:
                        ann, mod = c.attr_types[e.attr]
                        saved, self.m = self.m, mod
                        ty = self.class_type(ann)
                        self.m = saved
                        break
                return Val(v.own, v.inner, v.unordered, ty)
            if e.attr in SAME:
                return b
            return Val(b.inner, b.inner)
        if t is ast.Subscript:
            b = self.ev(e.value)
            self.ev(e.slice)
            if isinstance(e.slice, ast.Slice):
                return Val(b.own, b.inner)
            if b.parts and isinstance(e.slice, ast.Constant) and type(e.slice.value) is int and -len(b.parts) <= e.slice.value < len(b.parts):
                return b.parts[e.slice.value]
            return Val(b.inner, b.inner)
        if t in (ast.List, ast.Tuple, ast.Set):
            inner = frozenset()
            parts = []
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                if isinstance(x, ast.Starred):
                    if v.unordered and t is not ast.Set:
                        self.out_of_order(e, v, 'it is spread into a sequence')
                    inner |= v.inner
                    parts = None
                else:
                    inner |= v.own | v.inner
                if parts is not None:
                    parts.append(Val(v.own, v.inner, v.unordered, v.cls))
            r = Val((), inner, 'a set' if t is ast.Set else None, None, tuple(parts) if parts and t is ast.Tuple else None)
            if t is ast.Set:
                self.L.sites['unordered'].add(self.where(e))
            return r
        if t is ast.Dict:
            inner = frozenset()
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is not None:
                    self.ev(k)
                    inner |= v.own | v.inner
                else:
                    inner |= v.inner
            return Val((), inner)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            saved = dict(self.env)
            un = None
            for g in e.generators:
                it = self.ev(g.iter)
                self.L.sites['iterations'] += 1
                if it.unordered:
                    un = it
                self.assign(g.target, Val(it.inner, it.inner), e)
                for c in g.ifs:
                    self.ev(c)
            if t is ast.DictComp:
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = saved
            if t is ast.SetComp:
                self.L.sites['unordered'].add(self.where(e))
                return Val((), v.own | v.inner, 'a set')
            if un is not None:
                if t is ast.GeneratorExp:
                    return Val((), v.own | v.inner, un.unordered)
                self.out_of_order(e, un, 'it is iterated over')
            return Val((), v.own | v.inner)
        if t is ast.BoolOp:
            out = NIL
            for x in e.values:
                v = self.ev(x)
                out = out.join(v) if out is not NIL else v
            return out
        if t is ast.IfExp:
            self.ev(e.test)
            return self.ev(e.body, quiet).join(self.ev(e.orelse, quiet))
        if t is ast.NamedExpr:
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if t is ast.BinOp:
            a, b = self.ev(e.left, quiet), self.ev(e.right, quiet)
            un = None
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
                keys = [x for x in (e.left, e.right) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('keys', 'items') and not x.args]
                un = a.unordered or b.unordered or ('key views combined to a set' if keys else None)
                if un:
                    self.L.sites['unordered'].add(self.where(e))
            return Val((), a.inner | b.inner, un)
        if t is ast.UnaryOp:
            self.ev(e.operand)
            return NIL
        if t is ast.Compare:
            for x in [e.left] + e.comparators:
                self.ev(x)
            return NIL
        if t is ast.Lambda:
            saved = dict(self.env)
            for x in e.args.args:
                self.env[x.arg] = NIL
            self.ev(e.body)
            self.env = saved
            return NIL
        if t is ast.JoinedStr:
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    v = self.ev(x.value, quiet)
                    if v.unordered and not quiet:
                        self.out_of_order(e, v, 'its text is used')
            return NIL
        if t is ast.Call:
            return self.call(e, quiet)
        if t in (ast.Yield, ast.YieldFrom, ast.Await):
            v = self.ev(e.value) if e.value is not None else NIL
            if t is ast.Yield:
                v = Val((), v.own | v.inner)
            self.ret = self.ret.join(v) if self.ret is not NIL else v
            return NIL
        if t is ast.Starred:
            return self.ev(e.value)
        if t is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x)
            return NIL
        return NIL

    def call(self, e, quiet):
        f = e.func
        self.L.sites['calls'] += 1
        name = ast.unparse(f) if isinstance(f, (ast.Name, ast.Attribute)) else ''
        logging = name.startswith(('logger.', 'logging.', 'warnings.')) or name == 'print'
        quiet = quiet or logging
        args = []
        for x in e.args:
            v = self.ev(x.value if isinstance(x, ast.Starred) else x, quiet)
            if isinstance(x, ast.Starred):
                if v.unordered:
                    self.out_of_order(e, v, 'it is spread into arguments')
                v = Val(v.inner, v.inner)
            args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, quiet)
            if k.arg is not None:
                kw[k.arg] = v
        local = isinstance(f, ast.Name) and f.id in self.env
        # sources of chance
        if not quiet and not local and (name in CHANCE or any(name.startswith(c) for c in CHANCE if c.endswith('.'))):
            self.L.order[self.where(e)] = f'{name}() differs from run to run'
        target, recv = None, None
        if isinstance(f, ast.Name) and not local:
            r = self.L.prog.resolve(self.m, f.id)
            if isinstance(r, FuncInfo):
                target = r
            elif isinstance(r, ClassInfo):
                init = r.find('__init__')
                if init is not None:
                    fn = self.L.of(init)
                    self.pass_args(fn, args, kw, e)
                    inner = frozenset().union(*[v.own | v.inner for v in args + list(kw.values())]) if args or kw else frozenset()
                    return Val((), inner, None, r)
                return Val(cls=r)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id not in self.env:
                r = self.L.prog.resolve(self.m, f.value.id)
                if isinstance(r, ModuleInfo):
                    x = r.functions.get(f.attr)
                    if x is not None:
                        target = x
                    elif f.attr in r.classes:
                        init = r.classes[f.attr].find('__init__')
                        if init is not None:
                            self.pass_args(self.L.of(init), args, kw, e)
                        return Val(cls=r.classes[f.attr])
                elif isinstance(r, ClassInfo):
                    target = r.find(f.attr)
                    if target is not None and not target.is_static and not target.is_classmethod and args:
                        args = args[1:]
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                if self.fi.cls is not None:
                    target = self.fi.cls.find(f.attr, after=self.fi.cls)
                recv = self.env.get('self')
            if target is None:
                recv = self.ev(f.value)
                if recv.cls is not None:
                    target = recv.cls.find(f.attr)
        fns = []
        if target is None and isinstance(f, ast.Attribute) and recv is not None and recv.cls is None and f.attr not in BUILTIN:
            fns = [x for x in self.L.by_name.get(f.attr, []) if x.fi.cls is not None]  # receiver unknown: any of that name
        if target is not None:
            fns = [self.L.of(target)]
            if recv is not None and recv.cls is not None and target.cls is not None:
                fns += [self.L.of(s.methods[f.attr]) for s in recv.cls.all_subclasses() if f.attr in s.methods]
        if fns:
            out = NIL
            for x in fns:
                if x is not None:
                    r = self.returned(x, self.pass_args(x, args, kw, e), recv)
                    out = out.join(r) if out is not NIL else r
            return out
        every = args + list(kw.values())
        inner = frozenset().union(*[v.inner for v in every]) if every else frozenset()
        if isinstance(f, ast.Attribute) and recv is not None:
            a = f.attr
            if a in CHANGE:
                self.changes(recv.own, e)
                root = self.root(f.value)
                if isinstance(root, ast.Name) and root.id in self.env:
                    o = self.env[root.id]
                    add = frozenset().union(*[v.own | v.inner for v in every]) if every else frozenset()
                    self.env[root.id] = Val(o.own, o.inner | add, o.unordered, o.cls)
                elif isinstance(root, ast.Attribute):
                    bb = self.ev(root.value)
                    if bb.cls is not None and every:
                        self.L.set_attr(bb.cls, root.attr, Val((), frozenset().union(*[v.own | v.inner for v in every])))
                if a in ('pop', 'popitem') and recv.unordered and (a == 'popitem' or not e.args):
                    self.out_of_order(e, recv, 'an arbitrary element is taken')
                if a in ('extend', 'update', 'insert', 'append') and any(v.unordered for v in args):
                    if a == 'extend' or a == 'update' and not recv.unordered:
                        self.out_of_order(e, args[0], 'its elements are appended')
                return Val(recv.inner, recv.inner)
            if any(k.arg == 'inplace' and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in e.keywords):
                self.changes(recv.own, e)
            if a in VIEW:
                return recv
            if a in ('values', 'items', 'keys', 'get', '__getitem__'):
                if a == 'get':
                    dflt = args[1] if len(args) > 1 else NIL
                    return Val(recv.inner | dflt.own, recv.inner | dflt.inner)
                return Val((), recv.inner, recv.unordered)
            if a in COPY1:
                return Val((), recv.inner | inner, 'a set' if a in SETISH and recv.unordered else recv.unordered if a == 'copy' else None)
            if a == 'join' and any(v.unordered for v in args) and not quiet:
                self.out_of_order(e, args[0], 'its elements are joined')
            if recv.own or recv.inner:
                return Val((), frozenset())
            if name in ORDERED:
                for v in args:
                    if v.unordered:
                        self.out_of_order(e, v, f'{name} follows its order')
            if name in MUTE_FUNCS and args:
                self.changes(args[0].own, e)
            if 'out' in kw:
                self.changes(kw['out'].own, e)
            if name in ALIAS and args:
                return args[0]
            if name in ('np.array', 'numpy.array') and args and any(k.arg == 'copy' for k in e.keywords):
                return args[0]
            if name in WRAP:
                return Val(inner if name in ('next',) else (), inner)
            return NIL
        if name in ('set', 'frozenset') and not local:
            self.L.sites['unordered'].add(self.where(e))
            return Val((), inner, 'a set')
        if name in ORDERED and not quiet:
            for v in args:
                if v.unordered:
                    self.out_of_order(e, v, f'{name} follows its order')
        if name == 'setattr' and len(e.args) == 3 and args[0].cls is not None and isinstance(e.args[1], ast.Constant):
            self.L.set_attr(args[0].cls, e.args[1].value, args[2])
            return NIL
        if name == 'getattr' and e.args:
            return Val(args[0].inner, args[0].inner)
        if name in ALIAS and args:
            return args[0]
        if name in WRAP:
            own = inner if name in ('next', 'max', 'min') else frozenset()
            return Val(own, inner)
        return NIL

    def bind(self, fn, args, kw):
        params = list(fn.positional)
        if fn.fi.cls is not None and not fn.fi.is_static:
            params = params[1:]
        out = dict(zip(params, args))
        rest = args[len(params):]
        if rest and fn.vararg:
            out[fn.vararg] = Val((), frozenset().union(*[v.own | v.inner for v in rest]))
        for k, v in kw.items():
            if k in fn.params:
                out[k] = v
            elif fn.kwarg:
                o = out.get(fn.kwarg, NIL)
                out[fn.kwarg] = Val((), o.inner | v.own | v.inner)
        return out

    def pass_args(self, fn, args, kw, e):
        if fn is None:
            return {}
        b = self.bind(fn, args, kw)
        for k, v in b.items():
            if v.unordered and not fn.extra.get(k):
                fn.extra[k] = v.unordered
                self.L.again = True
            if ('p', fn.qual, k) in self.L.changed:
                self.L.change(v.own, self.L.changed[('p', fn.qual, k)])
            if ('pi', fn.qual, k) in self.L.changed:
                self.L.change(v.inner, self.L.changed[('pi', fn.qual, k)])
        return b

    def returned(self, fn, b, recv):
        r = fn.ret

        def tr(toks, to):
            out = set()
            for t in toks:
                if t[1] == fn.qual and t[2] in b:
                    out |= b[t[2]].own if t[0] == 'p' else b[t[2]].inner
                elif t[1] == fn.qual:
                    continue
                else:
                    out.add(t)
            return frozenset(out)
        cls = r.cls
        if cls is None and fn.fi.node.returns is not None:
            saved, self.m = self.m, fn.fi.module
            cls = self.class_type(fn.fi.node.returns)
            self.m = saved
        parts = r.parts and tuple(Val(tr(x.own, 0), tr(x.inner, 1), x.unordered, x.cls) for x in r.parts)
        return Val(tr(r.own, 0), tr(r.inner, 1), r.unordered, cls, parts)


ENTRY_FUNCTIONS = ('plotting', 'utils', 'linear_converters')


def entries(prog):
    """what a user calls: constructors and public methods of the exported classes and public functions"""
    out = set()
    commons = prog.modules.get('commons')
    classes = set()
    for name in list(commons.imports) if commons else []:
        r = prog.resolve(commons, name)
        if isinstance(r, ClassInfo):
            classes.add(r)
        elif isinstance(r, FuncInfo):
            out.add(f'{r.module.name}.{r.name}')
        elif isinstance(r, ModuleInfo):
            for c in r.classes.values():
                if not c.name.startswith('_'):
                    classes.add(c)
            for f in r.functions.values():
                if not f.name.startswith('_'):
                    out.add(f'{r.name}.{f.name}')
    for extra in ('results', 'flow_system'):
        if extra in prog.modules:
            m = prog.modules[extra]
            classes |= {c for c in m.classes.values() if not c.name.startswith('_')}
            out |= {f'{extra}.{f}' for f in m.functions if not f.startswith('_')}
    for c in classes:
        for k in c.mro():
            for f in k.methods.values():
                if f.name == '__init__' or not f.name.startswith('_'):
                    out.add(f'{k.module.name}.{k.name}.{f.name}')
    return out


_memo = {}


def analysis(prog):
    if id(prog) not in _memo:
        _memo[id(prog)] = Lints(prog)
    return _memo[id(prog)]


def in_place(prog):
    L = analysis(prog)
    ent = entries(prog)
    bad = []
    for (kind, q, p), where in sorted(L.changed.items()):
        if q in ent:
            bad.append((where, f'changes in place {"what is inside " if kind == "pi" else ""}the argument {p} of {q}'))
    return bad, {'changes': L.sites['changes'], 'calls': L.sites['calls'], 'functions': L.sites['functions'], 'entries': len(ent)}


def ordering(prog):
    L = analysis(prog)
    return sorted(L.order.items()), {'iterations': L.sites['iterations'], 'calls': L.sites['calls'],
                                     'functions': L.sites['functions'], 'unordered collections': len(L.sites['unordered'])}
