"""The abstract interpreter: one visit per statement and call context, gates instead of path enumeration."""

import ast
from fractions import Fraction

from . import terms as tm
from .program import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo, keeps_its_value, parse_type
from .terms import (FALSE, MINUS1, NONE, ONE, TRUE, UNDEF, ZERO, T, add, and_, app, atom, const, div, eq, is_num, ite,
                    leaves, le, lift, lt, mk, mul, neg, not_, num_of, or_, restrict, sub, subst)

MUTATORS = {'solve', 'append', 'extend', 'pop', 'update', 'remove', 'clear', 'insert', 'setdefault', 'sort', 'reverse', 'add',
            'discard', 'popitem', 'fill', 'add_trace', 'write_html', 'savefig', 'mkdir', 'write', 'writelines'}
ACTIONS = {'webbrowser.open', 'plotly.offline.plot', 'json.dump', 'yaml.dump', 'yaml.safe_dump', 'os.remove', 'os.makedirs',
           'os.mkdir', 'shutil.rmtree', 'shutil.copy', 'shutil.move'}  # noticed even if their value is used
ARRAY_BOOL = {'any', 'all'}
MAX_DEPTH = 60
FRAME_MAKERS = ('ext:pd.DataFrame', 'ext:pd.Series', 'ext:pandas.DataFrame', 'ext:pandas.Series')
FRAME_OPS = ('index', 'setitem', 'bitand', 'bitor', 'invert', 'ext:np.clip')
CONTAINERS = ('numpy.ndarray', 'builtins.str', 'builtins.dict', 'builtins.list', 'builtins.tuple', 'builtins.set')


class Cell:
    def __init__(self, cid, kind, cls=None, chain=(), live=TRUE, where=''):
        self.id, self.kind, self.cls, self.chain, self.live0, self.where = cid, kind, cls, chain, live, where
        self.attrs, self.content, self.ctor, self.havoc = {}, None, None, False
        self.data = {}


class Frame:
    def __init__(self, env, module, cls=None, self_t=None, fi=None, parent_env=None):
        self.env, self.module, self.cls, self.self_t, self.fi = env, module, cls, self_t, fi
        self.parent = parent_env  # chain of enclosing frames (closures)
        self.returns, self.loops, self.yields, self.nonlocal_ = [], [], None, set()
        self.given = {}  # parameter -> (frame, name) of the caller's variable it was given


class Opts:
    """opaque: qualnames not inlined; raw: math-model classes are interpreted, not modelled"""

    def __init__(self, opaque=(), raw=False, attr_defs=None, inline_only=None, keep_logs=False, types=None,
                 max_unroll=24, ext_opaque=(), type_facts=None, recurse=0, fail_at=(), writes=False):
        self.mutators = ()
        self.writes = writes  # in-place operators on values that may be arrays count as effects
        self.fail_at = set(fail_at)  # opaque functions that may raise (what happens then is compared, too)
        self.recurse = recurse  # how often a function is entered again while it is active
        self.opaque, self.raw, self.keep_logs = set(opaque), raw, keep_logs
        self.attr_defs = attr_defs or {}
        self.types = types or {}
        self.max_unroll = max_unroll
        self.type_facts = type_facts or {}


def _collection(b):
    """what the bound variable iterates over"""
    d = b.args[1]
    while d.op == 'app' and d.args[0] in ('list', 'keys', 'tuple', 'sorted', 'set') and len(d.args) >= 2:
        d = d.args[1]
    return d


def occupied(bvs, g):
    """g where the collections iterated over are not empty"""
    if g.op != 'ite':
        return g
    for b in bvs:
        if b.op != 'bv':
            continue
        a = app('truthy', _collection(b))
        g = _gcof(g, a, True)
    return g


def seg(chain, guard, elem):
    return mk('seg', tuple(chain), occupied(chain, guard), elem)


def seq(segs):
    return mk('seq', tuple(segs))


def ent(chain, guard, key, val):
    return mk('seg', tuple(chain), guard, mk('pair', key, val))


def dct(ents):
    return mk('dct', tuple(ents))


def bv(depth, dom):
    return mk('bv', depth, dom)


# ------------------------------------------------------------------------------- quantifier normal forms
def nonempty(bvs):
    return atom(app('truthy', _collection(bvs[0])))


def _bvfree_atom(g, bvs):
    bs = frozenset(bvs)
    best = None
    for a in tm.atoms_of(g):
        if not (a.fv & bs) and (best is None or a.key < best.key):
            best = a
    return best


def _gcof(g, a, val):
    """general cofactor with respect to an atom anywhere in the diagram"""
    if g.op != 'ite':
        return g
    if g.args[0] is a:
        return g.args[1] if val else g.args[2]
    if g.args[0].key > a.key:
        return g
    return tm.mk_ite(g.args[0], _gcof(g.args[1], a, val), _gcof(g.args[2], a, val))


def exists(bvs, g):
    if not bvs:
        return g
    if g is FALSE:
        return FALSE
    g = occupied(bvs, g)
    a = _bvfree_atom(g, bvs)
    if a is not None:
        return ite(atom(a), exists(bvs, _gcof(g, a, True)), exists(bvs, _gcof(g, a, False)))
    if g is TRUE:
        return nonempty(bvs)
    if len(bvs) > 1:
        return exists(bvs[:1], exists(bvs[1:], g))
    bvs, g = _canon_bound(bvs, g)
    return atom(mk('exists', bvs, g))


_height = {}


def _bound_height(t):
    """how many bound variables are nested in t at most"""
    if isinstance(t, tuple):
        return max((_bound_height(x) for x in t), default=0)
    if not isinstance(t, T):
        return 0
    r = _height.get(t)
    if r is None:
        r = _bound_height(t.args)
        if t.op in ('exists', 'sum', 'first', 'last', 'fold', 'seg', 'noearlier') and isinstance(t.args[0], tuple):
            r += len(t.args[0])
        _height[t] = r
    return r


def _canon_bound(bvs, *bodies):
    """name bound variables by nesting position so that alpha-equal terms coincide"""
    base = 100 + _bound_height(bodies)
    m = {}
    new = []
    for i, b in enumerate(bvs):
        nb = bv(base + i, subst(b.args[1], m))
        m[b] = nb
        new.append(nb)
    out = [subst(x, m) for x in bodies]
    return (tuple(new), *out)


def sum_over(bvs, e):
    if not bvs:
        return e
    e = occupied(bvs, e)
    a = _bvfree_atom(e, bvs)
    if a is not None:
        return ite(atom(a), sum_over(bvs, _gcof(e, a, True)), sum_over(bvs, _gcof(e, a, False)))
    bs = frozenset(bvs)
    if e.op == 'ite':
        # sum of gated monomials: split by leaves
        tot = ZERO
        for g, leaf in leaves(e):
            if leaf is ZERO:
                continue
            tot = add(tot, _sum_leaf(bvs, bs, g, leaf))
        return tot
    return _sum_leaf(bvs, bs, TRUE, e)


def _sum_leaf(bvs, bs, g, leaf):
    tot = ZERO
    for mono, c in tm._poly_of(leaf).items():
        outer, inner = const(c), ONE
        for x, e in mono:
            f = ONE
            for _ in range(abs(e)):
                f = mul(f, x if e > 0 else tm.inv(x))
            if x.fv & bs:
                inner = mul(inner, f)
            else:
                outer = mul(outer, f)
        if inner is ONE and g is TRUE and len(bvs) == 1:
            tot = add(tot, mul(outer, app('len', bvs[0].args[1])))
            continue
        nb, gg, ii = _canon_bound(bvs, g, inner)
        tot = add(tot, mul(outer, mk('sum', nb, gg, ii)))
    return tot


def first_over(op, bvs, g, v):
    if not bvs or not (v.fv & frozenset(bvs)):
        return v
    nb, gg, vv = _canon_bound(bvs, g, v)
    return mk(op, nb, gg, vv)


class Interp:
    def __init__(self, prog, opts=None):
        self.prog, self.opts = prog, opts or Opts()
        self.cells, self.closures = [], []
        self.live, self.chain = TRUE, ()
        self.frames, self.stack = [], []
        self.effects = []  # (chain, guard, term, where)
        self.raises = []  # (chain, guard, exc term, where)
        self.logs = []
        self.emits = []  # model mode: registered constraints / variables
        self.symstore = {}
        self.types = dict(self.opts.types)
        self.dictlike = set()  # values of no declared type whose keys, values or items are asked for
        self.touched = {}
        self.unsupported = []
        self.visited_calls = 0
        self.trycount = self.number_tries = 0
        self._const_globals = {}
        self._annotations = {}
        self.wlog = []
        self.phicount = 0
        self.phimap = {}

    # ------------------------------------------------------------------------------------------ helpers
    def where(self, node):
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            return ''
        rel = fr.module.relpath
        q = fr.fi.qual if fr.fi else ''
        if fr.fi is not None and fr.fi.overlay:
            rel = 'reference'
        return f'{rel}:{getattr(node, "lineno", 0)} {q}'

    def new_cell(self, kind, cls=None, node=None):
        c = Cell(len(self.cells), kind, cls, self.chain, self.live, self.where(node) if node is not None else '')
        self.cells.append(c)
        return c

    def ref(self, cell):
        return mk('obj', cell.id, tuple((b, b) for b in cell.chain))

    def cell(self, t):
        return self.cells[t.args[0]]

    def rmap(self, t):
        return {k: v for k, v in t.args[1] if k is not v}

    def new_list(self, segs, node=None, kind='list'):
        c = self.new_cell(kind, None, node)
        c.content = seq(segs)
        return self.ref(c)

    def new_dict(self, ents, node=None):
        c = self.new_cell('dict', None, node)
        c.content = dct(ents)
        return self.ref(c)

    def content(self, t):
        """content of a container ref"""
        c = self.cell(t)
        m = self.rmap(t)
        return subst(c.content, m) if m else c.content

    def set_content(self, t, new):
        c = self.cell(t)
        m = self.rmap(t)
        self.wlog.append((c.id, '[]', tuple(v for _, v in t.args[1])))
        if m:
            new = self._inverse(new, m)
        c.content = new

    def _inverse(self, v, m):
        inv = {}
        for k, x in m.items():
            if x.op not in ('bv', 'lamv') or x in inv:
                self.unsupported.append('write through a non-renaming reference')
                return app('havoc', v)
            inv[x] = k
        return subst(v, inv)

    def effect(self, t, node=None):
        if self.live is not FALSE:
            self.effects.append((self.chain, self.live, t, self.where(node) if node is not None else ''))

    def unsup(self, node, why=''):
        s = f'{self.where(node)}: {type(node).__name__} {why}'
        self.unsupported.append(s)
        return app('unsupported', const(ast.dump(node) if isinstance(node, ast.AST) else str(node)))

    # -------------------------------------------------------------------------------------------- types
    def type_of(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = self._type_of(t)
        if r is not None:
            self.types[t] = r
        return r

    def _type_of(self, t):
        o = t.op
        if o == 'sym':
            return t.args[1] if not isinstance(t.args[1], str) or t.args[1] in ('str', 'num', 'bool', 'frame') else None
        if o == 'attr':
            bt = self.type_of(t.args[0])
            f = self.opts.type_facts
            for c in self._classes_of(bt):
                for k in c.mro():
                    if (k.name, t.args[1]) in f:
                        return f[(k.name, t.args[1])]
                    if t.args[1] in k.attr_types:
                        ann, mod = k.attr_types[t.args[1]]
                        r = parse_type(self.prog, ann, mod)
                        if r is not None:
                            return r
                m = c.find(t.args[1])
                if m is not None and m.is_property:
                    return parse_type(self.prog, m.node.returns, m.module)
            return None
        if o == 'bv':
            return self._elem_type(t.args[1])
        if o in ('first', 'last'):
            return self.type_of(t.args[2])
        if o == 'const':
            return 'str' if isinstance(t.args[0], str) else None
        if o == 'fmt':
            return 'str'
        if o in ('num', 'poly'):
            return 'num'
        if o == 'obj':
            c = self.cell(t)
            if c.kind == 'inst':
                return ('cls', c.cls)
            return ('dict', None, None) if c.kind == 'dict' else (c.kind, None)
        if o == 'app':
            f = t.args[0]
            if f == 'get':
                dt = self.type_of(t.args[1])
                return dt[2] if isinstance(dt, tuple) and dt[0] == 'dict' else None
            if f == 'index':
                bt = self.type_of(t.args[1])
                if isinstance(bt, tuple):
                    if bt[0] == 'list':
                        i = t.args[2]
                        return bt if i.op == 'app' and i.args[0] == 'slice' else bt[1]
                    if bt[0] == 'tuple' and bt[1] and is_num(t.args[2]):
                        i = int(num_of(t.args[2]))
                        return bt[1][i] if -len(bt[1]) <= i < len(bt[1]) else None
                return None
            if f in ('keys', 'range', 'sorted', 'list'):
                return ('list', self._elem_type(t))
            if f == 'len':
                return 'num'
            if f.startswith('call:'):
                try:
                    fi = self.prog.func(f[5:])
                except AnalysisBroken:
                    return None
                return parse_type(self.prog, fi.node.returns, fi.module)
            if f in ('m:splitlines', 'm:split', 'm:rsplit'):
                return ('list', 'str')
            if f == 'm:to_dict':
                return ('dict', None, None)
            if f in FRAME_MAKERS or f.startswith('frame'):
                return 'frame'
            if (f in FRAME_OPS or f.startswith('m:')) and len(t.args) > 1 and isinstance(t.args[1], T) and self.is_frame(t.args[1]):
                return 'frame'
        if o == 'seq':
            return ('list', None)
        if o == 'dct':
            return ('dict', None, None)
        return None

    def is_path(self, t):
        if t.op == 'app' and t.args[0] == 'pathjoin':
            return self.is_path(t.args[1])
        return t.op == 'attr' and t.args[1] in ('folder', 'parent') or t.op == 'app' and t.args[0] in (
            'ext:pathlib.Path', 'ext:pathlib.Path.cwd', 'm:cwd')

    def is_frame(self, t):
        """a table or a column of one: compared element by element"""
        if t.op == 'poly':
            return any(self.is_frame(x) for m, _ in t.args[0] for x, _ in m)
        if t.op == 'attr' and t.args[1] in ('columns', 'index', 'loc', 'iloc', 'values'):
            return self.is_frame(t.args[0])
        return t.op in ('sym', 'app', 'attr') and self.type_of(t) == 'frame'

    def _classes_of(self, ty):
        if isinstance(ty, tuple):
            if ty[0] == 'cls':
                return [ty[1]]
            if ty[0] == 'union':
                return list(ty[1])
        return []

    def _elem_type(self, dom):
        if dom.op == 'app':
            if dom.args[0] == 'keys':
                dt = self.type_of(dom.args[1])
                return dt[1] if isinstance(dt, tuple) and dt[0] == 'dict' else None
            if dom.args[0] == 'range':
                return 'num'
            if dom.args[0] in ('sorted', 'inter', 'reversed', 'set'):
                return self._elem_type(dom.args[1])
        dt = self.type_of(dom)
        if isinstance(dt, tuple) and dt[0] in ('list', 'set', 'dict'):
            return dt[1]
        return None

    # ------------------------------------------------------------------------------------- environments
    def lookup(self, name, node):
        fr = self.frames[-1]
        env = fr
        while env is not None:
            if name in env.env:
                v = env.env[name]
                if v is not UNDEF:
                    return restrict(v, self.live)
            env = env.parent
        g = self.global_value(fr.module, name)
        if g is not None:
            return g
        if name in BUILTINS or hasattr(self, 'x_' + name) and name.isupper():
            return mk('ext', 'builtins.' + name)
        return mk('ext', 'builtins.' + name) if name in _PYBUILTINS else app('unknown_name', const(name))

    def global_value(self, module, name):
        r = self.prog.resolve(module, name)
        if r is None:
            if name == '__name__':
                return const(module.name)
            return None
        if isinstance(r, ClassInfo):
            return mk('cls', r.module.name + ':' + r.name)
        if isinstance(r, FuncInfo):
            return mk('fn', r.module.name + ':' + r.name)
        if isinstance(r, ModuleInfo):
            return mk('mod', r.name)
        if r[0] == 'ext':
            return mk('ext', r[1])
        _, expr, mod = r
        key = (mod.name, name)
        if key not in self._const_globals:
            self._const_globals[key] = app('global', const(f'{mod.name}.{name}'))
            if name == 'logger' or _is_logger(expr):
                v = mk('ext', 'logging.LOGGER')
            else:
                saved = self.live, self.chain
                self.live, self.chain = TRUE, ()
                self.frames.append(Frame({}, mod))
                try:
                    v = self.ev(expr)
                finally:
                    self.frames.pop()
                    self.live, self.chain = saved
            self._const_globals[key] = v
        return self._const_globals[key]

    def assign_name(self, name, val):
        fr = self.frames[-1]
        if name in fr.nonlocal_:
            p = fr.parent
            while p is not None:
                if name in p.env:
                    fr = p
                    break
                p = p.parent
        old = fr.env.get(name, UNDEF)
        if old is UNDEF:
            fr.env[name] = val
        else:
            fr.env[name] = ite(self.live, val, old)

    # ----------------------------------------------------------------------------------------- functions
    def _cls_q(self, q):
        m, n = q.split(':')
        return self.prog.modules[m].classes[n]

    def cls_of(self, t):
        m, n = t.args[0].split(':')
        return self.prog.modules[m].classes[n]

    def fn_of(self, t):
        m, n = t.args[0].split(':')
        return self.prog.modules[m].functions[n]

    def is_opaque(self, fi):
        if fi.qual in self.opts.opaque or '=' + fi.qual in self.opts.opaque or fi.name in self.opts.opaque and fi.cls is None:
            return True
        if fi.cls is not None:
            if fi.cls.name in self.opts.opaque:
                return True
            for c in fi.cls.mro():
                if f'{c.name}.{fi.name}' in self.opts.opaque:
                    return True
        return False

    def bind(self, fi_node, module, pos, kw, star=None, starkw=None, skip_self=None, defaults_frame=None):
        a = fi_node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        pos = list(pos)
        if skip_self is not None and params:
            env[params[0]] = skip_self
            params = params[1:]
        kw = dict(kw)
        for p in params:
            if pos:
                env[p] = pos.pop(0)
            elif p in kw:
                env[p] = kw.pop(p)
        if a.vararg is not None:
            segs = [seg((), TRUE, x) for x in pos] + list(star or [])
            env[a.vararg.arg] = seq(segs)
        elif star:
            # symbolic star into positional parameters
            for i, p in enumerate(x for x in params if x not in env):
                env[p] = app('staritem', seq(star), const(i))
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
        wrong = bool(pos) and a.vararg is None or bool(kw) and a.kwarg is None
        if not star and not starkw:
            need = set(x.arg for x in a.posonlyargs + a.args) - set(x.arg for x in (a.posonlyargs + a.args)[-len(a.defaults):] if a.defaults)
            need |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
            wrong = wrong or bool(need - set(env))
        if wrong:
            self.raise_(app('exc:TypeError'), fi_node)
        if a.kwarg is not None:
            ents = [ent((), TRUE, const(k), v) for k, v in kw.items()] + list(starkw or [])
            env[a.kwarg.arg] = self.new_dict(ents)
        elif starkw:
            d = dct(starkw)
            for p in params + [x.arg for x in a.kwonlyargs]:
                if p not in env:
                    got = self.dict_get(d, const(p), None)
                    if got is not None and got is not UNDEF:
                        env[p] = got
        alld = list(zip(reversed([p.arg for p in a.posonlyargs + a.args]), reversed(a.defaults)))
        alld += [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in alld:
            if p not in env or _has_undef(env[p]):
                saved = self.live, self.chain
                self.frames.append(defaults_frame or Frame({}, module))
                try:
                    dv = self.ev(d)
                finally:
                    self.frames.pop()
                if p in env:
                    env[p] = lift(None, lambda x: dv if x is UNDEF else x, env[p])
                else:
                    env[p] = dv
        for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
            env.setdefault(p, UNDEF)
        return env

    def declare_param_types(self, fi, env):
        a = fi.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(p.arg)
            if v is not None and p.annotation is not None:
                self.cast(v, p.annotation, fi.module)

    def cast(self, v, ann, module):
        ty = parse_type(self.prog, ann, module)
        if ty is None:
            return
        for _, l in leaves(v):
            if l.op in ('sym', 'attr', 'bv', 'app', 'phi', 'lamv') and self.type_of(l) is None:
                self.types[l] = ty

    def call_fi(self, fi, pos, kw, star=None, starkw=None, self_t=None, node=None, parent=None):
        """call a package function with all bindings"""
        self.visited_calls += 1
        self.touched.setdefault(fi.where if not fi.overlay else 'reference ' + fi.qual, 0)
        if fi.cls is not None and not fi.is_static:
            env = self.bind(fi.node, fi.module, pos, kw, star, starkw, skip_self=self_t)
        else:
            env = self.bind(fi.node, fi.module, pos, kw, star, starkw)
        me = self_t  # what a function works on: the object it belongs to, or the first one it is given
        if me is None and not fi.overlay:
            me = next((v for v in env.values() if isinstance(v, T) and v.op == 'obj' and self.cell(v).kind == 'inst'), None)
        key = (fi, me)
        active = [k for k in self.stack if k[0] is fi]
        recursive = bool(active) and not (me is not None and me.op == 'obj' and all(k[1] is not me for k in active)
                                          and len(active) < 4)
        if recursive and len(active) <= self.opts.recurse:
            recursive = False
        if self.is_opaque(fi) or recursive or len(self.stack) > MAX_DEPTH or fi.other_decorators:
            return self.opaque_call(fi, env, self_t, node)
        self.declare_param_types(fi, env)
        given = {}
        if isinstance(node, ast.Call) and self.frames:
            a = fi.node.args
            names = [p.arg for p in a.posonlyargs + a.args][1 if self_t is not None else 0:]
            for k, x in [*zip(names, node.args), *((k.arg, k.value) for k in node.keywords)]:
                if isinstance(x, ast.Starred):
                    break
                if isinstance(x, ast.Name) and x.id in self.frames[-1].env and k in env and \
                        restrict(self.frames[-1].env[x.id], self.live) is restrict(env[k], self.live):
                    given[k] = (self.frames[-1], x.id)
        return self.run_body(fi.node.body, env, fi.module, fi.cls, self_t, fi, key, parent, given)

    def run_body(self, body, env, module, cls, self_t, fi, key=None, parent=None, given=None):
        fr = Frame(env, module, cls, self_t, fi, parent)
        fr.given = given or {}
        if fi is not None and fi.is_generator:
            fr.yields = []
        self.frames.append(fr)
        self.stack.append(key)
        try:
            self.exec_block(body)
        finally:
            self.frames.pop()
            self.stack.pop()
        end_live = self.live
        if fr.yields is not None:
            self.live = or_(end_live, *[g for g, _ in fr.returns])
            return seq(fr.yields)
        val = NONE
        tot = end_live
        for g, v in reversed(fr.returns):
            val = ite(g, v, val)
            tot = or_(tot, g)
        self.live = tot
        return restrict(val, tot)

    def opaque_call(self, fi, env, self_t, node):
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        args = []
        for i, n in enumerate(names):
            v = env.get(n, UNDEF)
            if i == 0 and fi.cls is not None and not fi.is_static and self_t is not None:
                v = self_t
            args.append(self.ext_arg(v))
        q = fi.qual
        if fi.cls is not None:  # name by the class that introduces the method: overriding is dispatch, not identity
            for c in reversed(fi.cls.mro()):
                if fi.name in c.methods and fi.name != '__init__':
                    q = f'{c.name}.{fi.name}'
                    break
        r = self.lift_app('call:' + q, *args)
        if r.op == 'app' and r not in self.types and fi.node.returns is not None:
            ty = parse_type(self.prog, fi.node.returns, fi.module)
            if ty is not None:
                self.types[r] = ty
        if not fi.is_property:
            self.effect(r, node)
        if self_t is not None and self_t.op == 'obj' and not fi.is_property:
            self.cell(self_t).havoc = True
        if q in self.opts.fail_at:
            a, entry = self.truth(self.lift_app('fails', r)), self.live
            self.live = and_(entry, a)
            self.raise_(app('exc:Failure'), node)
            self.live = and_(entry, not_(a))
        return r

    def lift_app(self, name, *args):
        def mkapp(*xs):
            return app(name, *xs)

        # boolean-valued arguments are quoted (an array comparison is a value, not a gate)
        wrapped = tuple(_quote(a) for a in args)
        return lift('app:' + name, mkapp, *wrapped)

    def ext_arg(self, v):
        """functions that escape into calls we do not follow become canonical lambda terms"""
        def f(x):
            if x.op == 'closure':
                return self.lam_term(x)
            return x

        return lift(None, f, v)

    def lam_term(self, clos):
        node, fr, fi = self.closures[clos.args[0]]
        a = node.args
        n = len(a.posonlyargs + a.args)
        depth = len(self.stack) * 0 + getattr(self, '_lamdepth', 0)
        ps = tuple(mk('lamv', depth, i) for i in range(n - len(a.defaults)))
        self._lamdepth = depth + 1
        saved = self.live, self.chain
        try:
            body = self.call(clos, list(ps), {}, node)
        finally:
            self._lamdepth = depth
            self.live, self.chain = saved
        return mk('lam', ps, body)

    # ----------------------------------------------------------------------------------------------- call
    def call(self, f, pos, kw, node=None, star=None, starkw=None):
        if f.op == 'ite':
            return self.dispatch(f, lambda leaf: self.call(leaf, pos, kw, node, star, starkw))
        o = f.op
        if o == 'fn':
            fi = self.fn_of(f)
            intr = None if self.opts.raw else INTRINSIC_FUNCS.get(fi.name)
            if intr is not None and not fi.overlay:
                env = self.bind(fi.node, fi.module, pos, kw, star, starkw)
                return intr(self, env, node)
            return self.call_fi(fi, pos, kw, star, starkw, node=node)
        if o == 'cls':
            return self.instantiate(self.cls_of(f), pos, kw, star, starkw, node)
        if o == 'bound':  # (self, cls qual, fn name)
            return self.call_bound(f, pos, kw, star, starkw, node)
        if o == 'closure':
            cnode, fr, fi = self.closures[f.args[0]]
            env = self.bind(cnode, fr.module, pos, kw, star, starkw, defaults_frame=fr)
            if isinstance(cnode, ast.Lambda):
                nf = Frame(env, fr.module, fr.cls, fr.self_t, fr.fi, fr)
                self.frames.append(nf)
                self.stack.append((f, None))
                try:
                    if sum(1 for k in self.stack if k and k[0] is f) > 1:
                        return self.lift_app('call:<lambda>', *[self.ext_arg(p) for p in pos])
                    return self.ev(cnode.body)
                finally:
                    self.frames.pop()
                    self.stack.pop()
            if sum(1 for k in self.stack if k and k[0] is f) > self.opts.recurse:
                args = [self.ext_arg(env[k]) for k in env]
                return self.lift_app('call:<local>', *args)
            if fi.other_decorators:
                return self.lift_app('call:' + fi.name, *[self.ext_arg(p) for p in pos])
            for p in cnode.args.args:
                if p.annotation is not None and p.arg in env:
                    self.cast(env[p.arg], p.annotation, fr.module)
            return self.run_body(cnode.body, env, fr.module, fr.cls, fr.self_t, fi, (f, None), fr)
        if o == 'static':
            cls = self._cls_q(f.args[0])
            return self.call_fi(cls.methods[f.args[1]], pos, kw, star, starkw, node=node)
        if o == 'unbound':
            cls = self._cls_q(f.args[0])
            if pos:
                return self.call(self.bound(pos[0], cls.methods[f.args[1]]), pos[1:], kw, node, star, starkw)
        if o == 'plainset':
            if len(pos) == 2 and pos[0].op == 'const':
                self.set_attr(f.args[0], pos[0].args[0], pos[1], node, plain=True)
                return NONE
        if o == 'bm':  # builtin method on a value we know
            return self.value_method(f.args[0], f.args[1], pos, kw, node, star)
        if o == 'attr':
            return self.method_on_symbol(f.args[0], f.args[1], pos, kw, node, star, starkw)
        if o == 'ext':
            return self.ext_call(f.args[0], pos, kw, node, star, starkw)
        if o == 'app' and f.args[0] == 'partial':
            return self.call(f.args[1], list(f.args[2:]) + list(pos), kw, node, star, starkw)
        return self.generic_call(mk('app', 'apply', f), 'apply', [f] + list(pos), kw, node, star, starkw)

    def dispatch(self, v, fn):
        """run fn on every leaf of v under its gate and join"""
        entry = self.live
        res, out = None, FALSE
        ls = leaves(restrict(v, entry), TRUE)
        for g, leaf in ls:
            if leaf is UNDEF:
                continue
            lg = and_(entry, g)
            if lg is FALSE:
                continue
            self.live = lg
            r = fn(leaf)
            out = or_(out, self.live)
            res = r if res is None else ite(g, r, res)
        self.live = out
        return res if res is not None else UNDEF

    def call_bound(self, f, pos, kw, star, starkw, node):
        self_t, cq, name = f.args
        m, n = cq.split(':')
        cls = self.prog.modules[m].classes[n]
        fi = cls.methods[name]
        if not self.opts.raw and not fi.overlay:
            intr = INTRINSIC_METHODS.get((cls.name, name))
            if intr is not None:
                env = self.bind(fi.node, fi.module, pos, kw, star, starkw, skip_self=self_t)
                return intr(self, self_t, env, node)
        return self.call_fi(fi, pos, kw, star, starkw, self_t=self_t, node=node)

    def bound(self, self_t, fi):
        return mk('bound', self_t, f'{fi.cls.module.name}:{fi.cls.name}', fi.name)

    def instantiate(self, cls, pos, kw, star, starkw, node):
        init = cls.find('__init__')
        if not self.opts.raw and cls.name in INTRINSIC_CLASSES:
            env = self.bind(init.node, init.module, pos, kw, star, starkw, skip_self=NONE)
            return INTRINSIC_CLASSES[cls.name](self, cls, env, node)
        if cls.name in self.opts.opaque:
            c = self.new_cell('inst', cls, node)
            c.data['role'] = 'opaque'
            if init is not None:
                c.ctor = tuple(self._ctor_args(init, pos, kw, star, starkw))
            return self.ref(c)
        c = self.new_cell('inst', cls, node)
        t = self.ref(c)
        self.touched.setdefault(f'{cls.module.relpath} class {cls.name}', 0)
        if init is not None:
            c.ctor = tuple(self._ctor_args(init, pos, kw, star, starkw))
            self.call_fi(init, pos, kw, star, starkw, self_t=t, node=node)
        else:
            fields = {}
            if any(k.is_dataclass for k in cls.mro()):
                fields = cls.dataclass_fields()
            elif (pos or kw or star or starkw) and set(map(str, cls.external_bases())) <= {'object', 'ABC', 'abc.ABC'}:
                self.raise_(app('exc:TypeError'), node)
            elif pos or kw or star or starkw:
                c.ctor = tuple([(str(i), x) for i, x in enumerate(pos)] + sorted(kw.items()))
                return t
            names = list(fields)
            vals = dict(zip(names, pos))
            if len(pos) > len(names) or any(k not in fields or k in vals for k in kw) or starkw and not fields:
                self.raise_(app('exc:TypeError'), node)
            vals.update(kw)
            for n in names:
                if n not in vals and starkw:
                    got = self.dict_get(dct(starkw), const(n), None)
                    if got is not None and got is not UNDEF:
                        vals[n] = got
                if n not in vals and fields[n][2] is not None:
                    vals[n] = self.ev_in(fields[n][2], fields[n][1])
                if n not in vals and not star and not starkw:
                    self.raise_(app('exc:TypeError'), node)
            c.ctor = tuple((n, vals.get(n, UNDEF)) for n in names)
            for n in names:
                if n in vals:
                    self.set_attr(t, n, vals[n], node)
        return t

    def _ctor_args(self, init, pos, kw, star, starkw):
        env = self.bind(init.node, init.module, pos, kw, star, starkw, skip_self=NONE)
        for p in init.node.args.args[1:] + init.node.args.kwonlyargs:
            yield p.arg, env.get(p.arg, UNDEF)

    def ev_in(self, expr, module):
        self.frames.append(Frame({}, module))
        try:
            return self.ev(expr)
        finally:
            self.frames.pop()

    # ------------------------------------------------------------------------------------------ attributes
    def get_attr(self, v, name, node=None):
        if name in ('any', 'all') and is_bool_diagram(v):  # of a comparison, element by element
            return mk('bm', _quote(v), name)
        if v.op == 'ite':
            return self.dispatch(v, lambda leaf: self.get_attr(leaf, name, node))
        o = v.op
        if o == 'obj':
            c = self.cell(v)
            if c.kind == 'inst':
                r = c.attrs.get(name)
                if r is not None:
                    m = self.rmap(v)
                    if m:
                        r = subst(r, m)
                    r = restrict(r, self.live)
                    if c.havoc and r is NONE:
                        return self.sym_attr(v, name, node)
                    return r
                fi = c.cls.find(name)
                if fi is not None:
                    if fi.is_property:
                        if c.data.get('role') == 'opaque':
                            return mk('attr', v, name)
                        r = self.call_property(v, fi, node)
                        if fi.is_cached and not keeps_its_value(self.prog, fi):  # the first value stays
                            c.attrs[name] = r
                        return r
                    if fi.is_static:
                        return self.static(fi)
                    if fi.is_classmethod:
                        return self.bound(mk('cls', f'{c.cls.module.name}:{c.cls.name}'), fi)
                    return self.bound(v, fi)
                if name == '__class__':
                    return mk('cls', f'{c.cls.module.name}:{c.cls.name}')
                if name == '__dataclass_fields__' and any(k.is_dataclass for k in c.cls.mro()):
                    return dct([ent((), TRUE, const(f.args[1]), f) for f in self.fields(c.cls)])
                ca = c.cls.find_class_attr(name)
                if ca is not None:
                    return self.ev_in(ca[0], ca[1].module)
                return self.sym_attr(v, name, node)
            return mk('bm', v, name)
        if o == 'field':
            ann, module, default = self._cls_q(v.args[0]).dataclass_fields()[v.args[1]]
            if name == 'name':
                return const(v.args[1])
            if name == 'type':
                return self.annotation(v.args[0], v.args[1], ann, module)
            return mk('attr', v, name)
        if o == 'annotated':
            if name == '__metadata__':
                return seq([seg((), TRUE, x) for x in v.args[2]])
            return mk('attr', v, name)
        if o == 'cls':
            cls = self.cls_of(v)
            if name in ('__name__', '__qualname__'):
                return const(cls.name)
            if name == '__mro__':
                out = [seg((), TRUE, mk('cls', f'{c.module.name}:{c.name}')) for c in cls.mro()]
                out += [seg((), TRUE, mk('ext', str(b))) for b in cls.external_bases() if str(b) != 'object']
                return seq(out + [seg((), TRUE, mk('ext', 'object'))])
            fi = cls.find(name)
            if fi is not None:
                if fi.is_static:
                    return self.static(fi)
                if fi.is_classmethod:
                    return self.bound(v, fi)
                return mk('unbound', f'{fi.cls.module.name}:{fi.cls.name}', fi.name)
            return mk('attr', v, name)
        if o == 'mod':
            g = self.global_value(self.prog.modules[v.args[0]], name)
            return g if g is not None else mk('attr', v, name)
        if o == 'ext':
            if name == '__name__':
                return const(v.args[0].split('.')[-1])
            return mk('ext', v.args[0] + '.' + name)
        if o == 'sig':
            if name == 'parameters':
                return dct([ent((), TRUE, const(k), mk('param', k, d)) for k, d in v.args[0]])
            return app('attr', v, const(name))
        if o == 'param':
            if name == 'default':
                return v.args[1]
            if name == 'name':
                return const(v.args[0])
        if o in ('const', 'fmt', 'seq', 'dct', 'num'):
            if o == 'const' and v is NONE:
                return app('attr_of_none', const(name))
            return mk('bm', v, name)
        if o == 'super':
            self_t, cq = v.args
            m, n = cq.split(':')
            cls = self.prog.modules[m].classes[n]
            dyn = self.cell(self_t).cls if self_t.op == 'obj' else (
                self.cls_of(self_t) if self_t.op == 'cls' else (self._classes_of(self.type_of(self_t)) or [cls])[0])
            if cls not in dyn.mro():
                dyn = cls
            fi = dyn.find(name, after=cls)
            if fi is None:
                if name == '__setattr__':
                    return mk('plainset', self_t)
                return mk('ext', 'object.' + name)
            if fi.is_property:
                return self.call_property(self_t, fi, node)
            return self.bound(self_t, fi)
        if o == 'app' and v.args[0] == 'range':
            if name == 'start':
                return v.args[1]
            if name == 'stop':
                return v.args[2]
        return self.sym_attr(v, name, node)

    def annotation(self, cq, name, ann, module):
        key = (cq, name)
        if key not in self._annotations:
            if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).split('.')[-1] == 'Annotated':
                meta = tuple(self.ev_in(x, module) for x in ann.slice.elts[1:])
                self._annotations[key] = mk('annotated', cq, name, meta)
            else:
                self._annotations[key] = self.ev_in(ann, module)
        return self._annotations[key]

    def fields(self, cls):
        return [mk('field', f'{cls.module.name}:{cls.name}', n) for n in cls.dataclass_fields()]

    def static(self, fi):
        return mk('static', f'{fi.cls.module.name}:{fi.cls.name}', fi.name)

    def call_property(self, v, fi, node):
        return self.call_fi(fi, [], {}, self_t=v, node=node)

    def canon_attr_name(self, v, name):
        if name.startswith('_') and not name.startswith('__'):
            for c in self._classes_of(self.type_of(v)):
                k = _private_role(self.prog, c, name)
                if k:
                    return k
        return name

    def sym_attr(self, v, name, node=None):
        cname = self.canon_attr_name(v, name)
        st = self.symstore.get((v, cname))
        if st is not None:
            return restrict(st, self.live)
        if name == 'is_array' and 'TimeSeries.is_array' in self.opts.opaque:
            return not_(atom(app('truthy', mk('attr', v, 'is_scalar'))))
        if name == 'is_scalar' and 'TimeSeries.is_scalar' in self.opts.opaque:
            return atom(app('truthy', mk('attr', v, 'is_scalar')))
        while name == 'index' and v.op == 'app' and v.args[0] == 'setitem' and v.args[2].op == 'const' and self.is_frame(v.args[1]):
            v = v.args[1]  # another column, the same rows
        ty = self.type_of(v)
        classes = self._classes_of(ty)
        for c in classes:
            for k in c.mro():
                d = self.opts.attr_defs.get((k.name, name))
                if d is not None:
                    return d(self, v)
        fis = {c.find(name) for c in classes}
        if len(fis) == 1 and None not in fis:
            fi = next(iter(fis))
            over = any(name in s.methods for c in classes for s in c.all_subclasses() if s.methods.get(name) is not fi)
            if fi.is_property:
                if fi.is_cached and not self.is_opaque(fi) and not keeps_its_value(self.prog, fi):
                    return mk('attr', v, 'kept ' + name)  # read at some time before, when other things may have been true
                if not over and not fi.is_abstract and not self.is_opaque(fi) and not any(k and k[0] is fi and k[1] is v for k in self.stack):
                    return self.call_property(v, fi, node)
                return mk('attr', v, name)
            if fi.is_static:
                return self.static(fi)
        if name == '__class__' or name == '__name__':
            return mk('attr', v, name)
        if classes and not any(self.prog.has_attribute(c, name) for c in classes):
            self.raise_(app('exc:AttributeError'), node)
        return mk('attr', v, cname)

    def set_attr(self, v, name, val, node=None, plain=False):
        if v.op == 'ite':
            self.dispatch(v, lambda leaf: self.set_attr(leaf, name, val, node, plain) or NONE)
            return
        if v.op == 'obj' and self.cell(v).kind == 'inst':
            c = self.cell(v)
            fi = None
            own = None if plain else c.cls.find('__setattr__')
            if own is not None:
                self.call_fi(own, [const(name), val], {}, self_t=v, node=node)
                return
            for k in c.cls.mro():
                if name in k.setters:
                    fi = k.setters[name]
                    break
            if fi is not None:
                self.call_fi(fi, [val], {}, self_t=v, node=node)
                return
            m = self.rmap(v)
            self.wlog.append((c.id, name, tuple(x for _, x in v.args[1])))
            lv = restrict(self.live, c.live0)
            if m:
                val, lv = self._inverse(val, m), self._inverse(lv, m)
            old = c.attrs.get(name, UNDEF)
            c.attrs[name] = val if old is UNDEF else ite(lv, val, old)
            return
        cname = self.canon_attr_name(v, name)
        old = self.symstore.get((v, cname))
        if old is None:
            old = mk('attr', v, cname)
            ty = self.type_of(old)
        self.symstore[(v, cname)] = ite(self.live, val, old)
        self.effect(app('setattr', v, const(cname), val) if val.op != 'ite' else
                    lift(None, lambda x: app('setattr', v, const(cname), x), val), node)

    # --------------------------------------------------------------------------------- methods on symbols
    def method_on_symbol(self, recv, name, pos, kw, node, star, starkw):
        ty = self.type_of(recv)
        classes = self._classes_of(ty)
        fis = {c.find(name) for c in classes}
        if classes and len(fis) == 1 and None not in fis:
            fi = next(iter(fis))
            if not self.opts.raw:
                intr = INTRINSIC_METHODS.get((fi.cls.name, name))
                if intr is not None:
                    env = self.bind(fi.node, fi.module, pos, kw, star, starkw, skip_self=recv)
                    return intr(self, recv, env, node)
            if name == '__str__' and not (pos or kw or star or starkw) and self.is_opaque(fi):
                return self.x_str([recv], {}, node)  # str(x) asks x.__str__()
            over = any(name in s.methods for c in classes for s in c.all_subclasses() if s.methods.get(name) is not fi)
            if over or fi.is_abstract or _only_raises(fi):
                env = self.bind(fi.node, fi.module, pos, kw, star, starkw, skip_self=recv)
                r = self.opaque_call(fi, env, recv, node)
                return r
            return self.call_fi(fi, pos, kw, star, starkw, self_t=recv, node=node)
        if recv.op == 'cls':
            return self.generic_call(None, f'm:{name}', [recv] + list(pos), kw, node, star, starkw)
        return self.value_method(recv, name, pos, kw, node, star, starkw)

    def generic_call(self, _t, label, args, kw, node, star=None, starkw=None, effect=False):
        a = [self.ext_arg(x) for x in args]
        if star:
            a.append(mk('star', seq(star)))
        for k in sorted(kw):
            a.append(lift(None, lambda x, k=k: mk('kw', k, x), _quote(self.ext_arg(kw[k]))))
        if starkw:
            a.append(mk('starkw', dct(starkw)))
        r = self.lift_app(label, *a)
        if effect or (node is not None and getattr(node, '_stmt', False)) or self.opts.writes and ('out' in kw or label in self.opts.mutators):
            self.effect(r, node)
        return r

    def reduced(self, x, name, node):
        x = unquote(x)
        if is_bool_diagram(x):
            return getattr(self, 'x_np_' + name)([x], {}, node) if name in ('any', 'all') else None
        if x.op not in ('poly', 'app', 'attr', 'sym', 'bv', 'sum') or self.is_frame(x) or isinstance(self.type_of(x), tuple):
            return None
        if name in ('any', 'all') and x.op != 'poly' and not (x.op == 'app' and (x.args[0] in tm.ARRAYS or x.args[0] == 'array')):
            return None
        return getattr(self, 'x_np_' + name)([x], {}, node)

    def value_method(self, recv, name, pos, kw, node, star=None, starkw=None):
        if not pos and not kw and not star and not starkw and name in ('sum', 'max', 'min', 'mean', 'any', 'all'):
            r = self.reduced(recv, name, node)  # x.sum() is np.sum(x)
            if r is not None:
                return r
        if name == 'fix' and len(pos) == 1 and not kw and not star and not starkw:  # fix(x): the value, and fixed at it
            self.set_attr(recv, 'value', pos[0], node)
            pos = []
        if recv.op == 'ite':
            return self.dispatch(recv, lambda leaf: self.value_method(leaf, name, pos, kw, node, star, starkw))
        kind = self.cell(recv).kind if recv.op == 'obj' else None
        ty = self.type_of(recv)
        if name == 'extend' and kind is None and len(pos) == 1 and pos[0].op == 'obj' and self.cell(pos[0]).kind == 'list':
            segs = self.segs_of(pos[0])
            if segs and all(not ch and g is TRUE for ch, g, e in segs):  # one append after the other
                for ch, g, e in segs:
                    self.value_method(recv, 'append', [e], {}, node)
                return NONE
        tk = ty[0] if isinstance(ty, tuple) else ty
        h = None
        if kind == 'dict' or recv.op == 'dct' or (tk == 'dict' and name in ('keys', 'values', 'items', 'get', 'copy')) or (
                kind is None and name in ('keys', 'values', 'items')):
            h = DICT_METHODS.get(name)
        elif kind in ('list', 'set') or recv.op == 'seq' or (tk in ('list', 'set', 'tuple') and name in ('copy', 'index', 'union', 'intersection')):
            h = LIST_METHODS.get(name)
        if h is None and (recv.op in ('const', 'fmt') or tk == 'str'):
            h = STR_METHODS.get(name)
        if h is None and name == 'format' and recv.op == 'const':
            h = STR_METHODS.get(name)
        if h is not None:
            if ty is None and kind is None and name in ('keys', 'values', 'items') and recv.op in ('attr', 'bv', 'sym', 'app'):
                self.dictlike.add(recv)
            r = h(self, recv, list(pos), kw, node)
            if r is not None:
                return r
        if name == 'get' and pos and pos[0].op == 'bv' and pos[0].args[1] is app('keys', recv):
            return self.index(recv, pos[0], node)  # a key of the dict
        r = self.generic_call(None, f'm:{name}', [recv] + list(pos), kw, node, star, starkw, effect=name in MUTATORS)
        return r

    # ---------------------------------------------------------------------------------------- containers
    def is_seqlike(self, t):
        if t.op == 'seq':
            return True
        if t.op == 'obj':
            return self.cell(t).kind in ('list', 'set')
        ty = self.type_of(t)
        return isinstance(ty, tuple) and ty[0] in ('list', 'set', 'tuple') and not (
            t.op == 'app' and t.args[0] == 'index' and ty[0] == 'tuple') or (
            t.op == 'app' and t.args[0] in ('list', 'sorted', 'range', 'keys'))

    def segs_of(self, t):
        """[(chain, guard, elem)] of an iterable leaf; chains use the current depth"""
        o = t.op
        if o == 'obj':
            c = self.cell(t)
            if c.kind == 'inst':
                return self._sym_iter(t)
            content = self.content(t)
            t2 = content
            if t2.op == 'ite':
                return self._segs_ite(t2)
            return self.segs_of(t2)
        if o == 'seq':
            return [self._seg3(s) for s in t.args[0]]
        if o == 'dct':
            out = []
            for s in t.args[0]:
                ch, g, pr = self._seg3(s)
                if pr.op != 'pair':
                    out.append((ch, g, pr))
                    continue
                k = pr.args[0]
                dup = any(k is k2 and not ch2 and g2 is TRUE for ch2, g2, k2 in out)
                if not dup:
                    out.append((ch, g, k))
            return out
        if o == 'ite':
            return self._segs_ite(t)
        if o == 'const' and isinstance(t.args[0], str):
            return [((), TRUE, const(x)) for x in t.args[0]]
        if o == 'app':
            f = t.args[0]
            if f == 'array' and t.args[1].op == 'seq' and all(s.op == 'seg' and not s.args[0] and s.args[1] is TRUE
                                                              for s in t.args[1].args[0]):
                return self.segs_of(t.args[1])
            if f == 'range':
                a, b = t.args[1], t.args[2]
                if is_num(a) and is_num(b):
                    lo, hi = int(num_of(a)), int(num_of(b))
                    if hi - lo <= self.opts.max_unroll:
                        return [((), TRUE, const(i)) for i in range(lo, hi)]
                if a is ZERO and b.op == 'app' and b.args[0] == 'len':
                    x = b.args[1]
                    v = bv(len(self.chain), self.domain(x))
                    return [((v,), TRUE, self.idx(v))]
            if f == 'pairs':  # abstract sequence of tuples built by zip/enumerate/items on symbols
                v = bv(len(self.chain), t.args[1])
                return [((v,), TRUE, subst(t.args[3], {t.args[2]: v}))]
            if f == 'concat':
                out = []
                for x in t.args[1:]:
                    out += self.segs_of(x)
                return out
        return self._sym_iter(t)

    def domain(self, x):
        """domain term of iterating x itself"""
        ty = self.type_of(x)
        if isinstance(ty, tuple) and ty[0] == 'dict':
            return app('keys', x)
        if x.op == 'app' and x.args[0] in ('list', 'set', 'tuple'):
            return self.domain(x.args[1])
        return x

    def _sym_iter(self, t):
        d = self.domain(t)
        v = bv(len(self.chain), d)
        return [((v,), TRUE, v)]

    def _seg3(self, s):
        if s.op == 'segphi':
            v = bv(len(self.chain), app('carried', mk('phiid', *s.args)))
            return ((v,), TRUE, v)
        ch, g, e = s.args
        if not ch:
            return (), g, e
        m, new = {}, []
        for i, b in enumerate(ch):
            nb = bv(len(self.chain) + i, subst(b.args[1], m))
            if nb is not b:
                m[b] = nb
            new.append(nb)
        return tuple(new), subst(g, m), subst(e, m)

    def _segs_ite(self, t):
        out = []
        ls = leaves(t)
        for g, leaf in ls:
            if leaf is UNDEF:
                continue
            for ch, gg, e in self.segs_of(leaf):
                out.append((ch, and_(g, gg), e))
        # merge equal elements
        merged, seen = [], {}
        for ch, g, e in out:
            k = (ch, e)
            if k in seen:
                i = seen[k]
                merged[i] = (ch, or_(merged[i][1], g), e)
            else:
                seen[k] = len(merged)
                merged.append((ch, g, e))
        return merged

    def mkseq(self, segs):
        return seq([seg(c, g, e) for c, g, e in segs if g is not FALSE])

    def as_seq(self, t):
        """immutable sequence term for any iterable leaf"""
        if t.op == 'obj' and self.cell(t).kind in ('list', 'set') and self.content(t).op == 'seq':
            return self.content(t)
        if t.op == 'seq':
            return t
        return self.mkseq(self.segs_of(t))

    def idx(self, v):
        """index of the element bound by v in its domain"""
        d = v.args[1]
        if d.op == 'app' and d.args[0] == 'range':
            return sub(v, d.args[1])
        return app('idx', v)

    def index(self, x, i, node=None):
        """x[i] on leaves"""
        if x.op == 'ite' or i.op == 'ite':
            p = [x, i]
            return self._dispatch2(x, i, lambda a, b: self.index(a, b, node))
        o = x.op
        if o == 'obj':
            c = self.cell(x)
            if c.kind == 'dict':
                r = self.dict_get(self.content(x), i, None)
                if r is not None:
                    return r
                return app('get', self.content(x), i)
            if c.kind in ('list', 'set'):
                return self.index(self.content(x), i, node)
            fi = c.cls.find('__getitem__')
            if fi is not None:
                return self.call_fi(fi, [i], {}, self_t=x, node=node)
        if o == 'dct':
            r = self.dict_get(x, i, None)
            return r if r is not None else app('get', x, i)
        if o == 'seq':
            segs = x.args[0]
            if is_num(i):
                n = int(num_of(i))
                s = segs if n >= 0 else segs[::-1]
                k = n if n >= 0 else -n - 1
                if k < len(s) and all(q.op == 'seg' and not q.args[0] and q.args[1] is TRUE for q in s[:k + 1]):
                    return s[k].args[2]
                if n == 0 and len(segs) == 1 and segs[0].op == 'seg' and segs[0].args[0]:
                    ch, g, e = segs[0].args
                    if len(ch) == 1 and g is TRUE:
                        return subst(e, {ch[0]: self._at(ch[0].args[1], ZERO)})
                r = self._index_guarded(segs, n)
                if r is not None:
                    return r
            elif i.op == 'app' and i.args[0] == 'slice':
                r = self._slice_seq(segs, i)
                if r is not None:
                    return r
            elif len(segs) == 1 and segs[0].op == 'seg' and len(segs[0].args[0]) == 1 and segs[0].args[1] is TRUE:
                b = segs[0].args[0][0]
                return subst(segs[0].args[2], {b: self._at(b.args[1], i)})
            return app('index', x, i)
        if o == 'const' and isinstance(x.args[0], str):
            if is_num(i):
                try:
                    return const(x.args[0][int(num_of(i))])
                except IndexError:
                    pass
            elif i.op == 'app' and i.args[0] == 'slice' and all(is_num(a) or a is NONE for a in i.args[1:]):
                return const(x.args[0][slice(*[None if a is NONE else int(num_of(a)) for a in i.args[1:]])])
        if o == 'app' and x.args[0] == 'range':
            a, b = x.args[1], x.args[2]
            if is_num(a) and is_num(b) and i.op == 'app' and i.args[0] == 'slice' and all(
                    is_num(q) or q is NONE for q in i.args[1:]):
                r = range(int(num_of(a)), int(num_of(b)))[slice(*[None if q is NONE else int(num_of(q)) for q in i.args[1:]])]
                return app('range', const(r.start), const(max(r.stop, r.start))) if r.step == 1 else seq(
                    [seg((), TRUE, const(q)) for q in r])
            if i.op == 'app' and i.args[0] == 'slice' and i.args[3] is NONE:
                lo, hi = i.args[1], i.args[2]
                na = a if lo is NONE else (add(a if not _neg(lo) else b, lo) if is_num(lo) else None)
                nb = b if hi is NONE else (add(b if _neg(hi) else a, hi) if is_num(hi) else None)
                if na is not None and nb is not None:
                    return app('range', na, nb)
            if is_num(i):
                return add(b, i) if num_of(i) < 0 else add(a, i)
        if o == 'lam' or o == 'closure':
            pass
        ty = self.type_of(x)
        if isinstance(ty, tuple) and ty[0] == 'dict':
            st = self.symstore.get((x, '[]'))
            if st is not None:
                r = self.dict_get(st, i, None)
                if r is not None:
                    return r
            return app('get', x, i)
        if i.op == 'app' and i.args[0] == 'idx' and i.args[1].args[1] is self.domain(x) and not (
                isinstance(ty, tuple) and ty[0] == 'dict'):
            return i.args[1]
        if i.op == 'const' and isinstance(i.args[0], str):
            return app('get', x, i)
        if i.op == 'bv' and i.args[1].op == 'app' and i.args[1].args[0] == 'keys' and i.args[1].args[1] is x:
            return app('get', x, i)
        return app('index', x, i)

    def _index_guarded(self, segs, n):
        """n-th element when leading elements are present under gates (no quantified segments before it)"""
        if n < 0:
            if n != -1:
                return None
            res = UNDEF
            for s in segs:
                if s.op != 'seg' or s.args[0]:
                    return None
                res = ite(s.args[1], s.args[2], res)
            return res
        # count-indexed selection
        states = [TRUE] + [FALSE] * (n + 1)
        res = UNDEF
        for s in segs:
            if s.op != 'seg' or s.args[0]:
                return res if states[n] is FALSE and all(x is FALSE for x in states[:n + 1]) else None
            g = s.args[1]
            res = ite(and_(states[n], g), s.args[2], res)
            new = list(states)
            for k in range(n + 1, -1, -1):
                stay = and_(states[k], not_(g))
                come = and_(states[k - 1], g) if k else FALSE
                new[k] = or_(stay, come)
            states = new
        return res

    def _slice_seq(self, segs, i):
        lo, hi, st = i.args[1:]
        if lo is NONE and hi is NONE and st is NONE:
            return seq(segs)
        if not all(s.op == 'seg' and not s.args[0] and s.args[1] is TRUE for s in segs):
            return None
        if all(is_num(a) or a is NONE for a in (lo, hi, st)):
            return seq(segs[slice(*[None if a is NONE else int(num_of(a)) for a in (lo, hi, st)])])
        return None

    def _at(self, dom, i):
        """element of a domain at index i"""
        if i.op == 'app' and i.args[0] == 'idx' and i.args[1].args[1] is dom:
            return i.args[1]
        if dom.op == 'app' and dom.args[0] == 'range':
            return add(dom.args[1], i)
        if dom.op == 'seq':
            return self.index(dom, i)
        return app('index', dom, i)

    def _dispatch2(self, a, b, fn):
        return self.dispatch(a, lambda x: self.dispatch(b, lambda y: fn(x, y)))

    def dict_get(self, d, key, default):
        """value of key in dict content d; None when undecidable; `default` (term) for missing keys"""
        if d.op == 'ite':
            def f(leaf):
                r = self.dict_get(leaf, key, default)
                return r if r is not None else app('get', leaf, key)
            return self.dispatch(d, f)
        if d.op != 'dct':
            return None
        if key.op == 'ite':
            def f2(leaf):
                r = self.dict_get(d, leaf, default)
                return r if r is not None else app('get', d, leaf)
            return self.dispatch(key, f2)
        res = default if default is not None else UNDEF
        lost = mk('unsupported', 'lookup')  # an unknown entry, unless a later one replaces it
        for s in d.args[0]:
            if s.op == 'segphi':
                res = lost
                continue
            ch, g, pr = self._seg3(s)
            if pr.op != 'pair':
                res = lost
                continue
            k, v = pr.args
            if self.never_same(k, key):
                continue
            if not ch:
                c = eq(k, key)
                res = ite(and_(g, c), v, res)
            else:
                m = self.unify(k, key, ch)
                if m is False:
                    continue
                if m is None:
                    b = ch[0]
                    if len(ch) == 1 and k.op == 'app' and k.args[0] == 'get' and k.args[2] is b and g is TRUE:
                        v2 = subst(v, {b: app('keyof', k.args[1], key)})  # get(C, keyof(C, x)) is x
                        if b.args[1] is app('keys', k.args[1]):
                            res = ite(self.is_value_of(key, k.args[1]), v2, res)
                            continue
                    res = lost
                    continue
                mem = TRUE
                for b in ch:
                    mem = and_(mem, self.member(m[b], subst(b.args[1], m)))
                res = ite(and_(subst(g, m), mem), subst(v, m), res)
        return None if any(l is lost for _, l in leaves(res)) else res

    def never_same(self, a, b):
        """a and b are objects of classes of the package that have no common subclass, or one of them is a text"""
        s, t = self.type_of(a), self.type_of(b)
        x, y = self._classes_of(s), self._classes_of(t)
        if 'str' in (s, t) and (x or y) and not (x and y):  # no class of the package defines equality with texts
            return True
        if 'str' in (s, t) and any(isinstance(q, tuple) and q[0] in ('list', 'dict', 'set', 'tuple') for q in (s, t)):
            return True
        return bool(x) and bool(y) and not any(
            c.is_a(p) and c.is_a(q) for c in self.prog.classes.values() for p in x for q in y)

    def is_value_of(self, x, d):
        """x is one of the values of the (symbolic) dict d -> gate"""
        if x.op in ('first', 'last') and x.args[2].op == 'app' and x.args[2].args[0] == 'get' and \
                x.args[2].args[1] is d and x.args[2].args[2] in x.args[0] and x.args[2].args[2].args[1] is app('keys', d):
            return TRUE
        c = self.contains(app('values', d), x)
        return c if c is not None else atom(app('in', x, app('values', d)))

    def member(self, x, dom):
        if x.op == 'bv' and x.args[1] is dom:
            return TRUE
        if dom.op == 'app' and dom.args[0] == 'keys' and dom.args[1].op in ('dct', 'obj'):
            return self.contains(dom.args[1], x)
        if dom.op == 'app' and dom.args[0] == 'carried':
            return atom(app('in', x, dom))
        if dom.op in ('seq', 'obj'):
            return self.contains(dom, x)
        while dom.op == 'app' and dom.args[0] in ('keys', 'list'):  # as in contains()
            dom = dom.args[1]
        return atom(app('in', x, dom))

    def unify(self, pat, t, bvs):
        """mapping of bvs making pat equal t; None unknown; False impossible"""
        m = {}

        def u(p, x):
            if p in bvs:
                if p in m:
                    return m[p] is x
                m[p] = x
                return True
            if not (p.fv & frozenset(bvs)):
                return p is x
            if p.op != x.op or len(p.args) != len(x.args):
                return False
            for a, b in zip(p.args, x.args):
                if isinstance(a, T) and isinstance(b, T):
                    if not u(a, b):
                        return False
                elif isinstance(a, tuple) and isinstance(b, tuple):
                    if len(a) != len(b):
                        return False
                    for a1, b1 in zip(a, b):
                        if isinstance(a1, T) and isinstance(b1, T):
                            if not u(a1, b1):
                                return False
                        elif a1 != b1:
                            return False
                elif a != b:
                    return False
            return True

        if u(pat, t) and all(b in m for b in bvs):
            return m
        return None

    def contains(self, coll, x):
        """x in coll -> gate"""
        if coll.op == 'ite':
            return self.dispatch(coll, lambda c: self.contains(c, x))
        if x.op == 'ite':
            return self.dispatch(x, lambda y: self.contains(coll, y))
        o = coll.op
        if o == 'obj' and self.cell(coll).kind != 'inst':
            return self.contains(self.content(coll), x)
        if o in ('seq', 'dct'):
            r = FALSE
            for s in coll.args[0]:
                if s.op == 'segphi':
                    r = or_(r, atom(app('in', x, app('carried', mk('phiid', *s.args)))))
                    continue
                ch, g, e = self._seg3(s)
                if o == 'dct' and e.op == 'pair':
                    e = e.args[0]
                if self.never_same(e, x):
                    continue
                if not ch:
                    r = or_(r, and_(g, eq(e, x)))
                else:
                    m = self.unify(e, x, ch)
                    if m:
                        mem = TRUE
                        for b in ch:
                            mem = and_(mem, self.member(m[b], subst(b.args[1], m)))
                        r = or_(r, and_(subst(g, m), mem))
                    else:
                        r = or_(r, exists(ch, and_(g, eq(e, x))))
            return r
        if o == 'const' and isinstance(coll.args[0], str) and x.op == 'const' and isinstance(x.args[0], str):
            return const(x.args[0] in coll.args[0])
        d = self.domain(coll)
        if x.op == 'bv' and x.args[1] is d:
            return TRUE
        ty = self.type_of(coll)
        if (coll.op == 'const' and isinstance(coll.args[0], str)) or ty == 'str' or coll.op == 'fmt':
            return atom(app('in', x, coll))
        while d.op == 'app' and d.args[0] in ('keys', 'list'):
            d = d.args[1]
        return atom(app('in', x, d))

    def length(self, t):
        if t.op == 'ite':
            return self.dispatch(t, self.length)
        if t.op == 'obj' and self.cell(t).kind != 'inst':
            c = self.content(t)
            return self.distinct(c) if self.cell(t).kind == 'set' and c.op == 'seq' else self.length(c)
        if t.op == 'dct':
            return self.distinct(t)
        if t.op == 'seq':
            tot = ZERO
            for s in t.args[0]:
                if s.op == 'segphi':
                    tot = add(tot, app('len', app('carried', mk('phiid', *s.args))))
                    continue
                ch, g, e = s.args
                if not ch:
                    tot = add(tot, ite(g, ONE, ZERO))
                else:
                    tot = add(tot, sum_over(ch, ite(g, ONE, ZERO)))
            return tot
        if t.op == 'const' and isinstance(t.args[0], str):
            return const(len(t.args[0]))
        if t.op == 'app' and t.args[0] == 'range':
            return sub(t.args[2], t.args[1])
        d = t
        if t.op == 'app' and t.args[0] in ('list', 'tuple', 'keys', 'sorted', 'reversed', 'array'):
            return self.length(t.args[1])
        return app('len', d)

    def distinct(self, t):
        """number of different keys of a dict or elements of a set"""
        keys = []
        for s in t.args[0]:
            if s.op == 'segphi':
                keys.append(None)
                continue
            ch, g, e = s.args
            keys.append((ch, g, e.args[0] if t.op == 'dct' and e.op == 'pair' else e))
        if all(k is not None and not k[0] for k in keys):
            tot = ZERO
            for i, (_, g, k) in enumerate(keys):
                new = g
                for _, g2, k2 in keys[:i]:
                    new = and_(new, not_(and_(g2, eq(k, k2))))
                tot = add(tot, ite(new, ONE, ZERO))
            return tot
        if len(keys) == 1 and keys[0] is not None:
            ch, g, k = keys[0]
            if len(ch) == 1 and k is ch[0] and ch[0].args[1].op == 'app' and ch[0].args[1].args[0] == 'keys':
                return sum_over(ch, ite(g, ONE, ZERO))
        segs = [s if s.op == 'segphi' else seg(*k) for s, k in zip(t.args[0], keys)]
        return app('distinct', mk('seq', tuple(sorted(segs, key=lambda s: s.key))))

    # ------------------------------------------------------------------------------------------ truth
    def truth(self, v):
        if v.op == 'ite':
            return lift(None, self.truth, v)
        o = v.op
        if v is TRUE or v is FALSE:
            return v
        if o == 'const':
            return const(bool(v.args[0]))
        if o == 'num':
            return const(v.args[0] != 0)
        if o == 'obj':
            c = self.cell(v)
            if c.kind == 'inst':
                return TRUE
            return self.truth(self.content(v))
        if o in ('seq', 'dct'):
            r = FALSE
            for s in v.args[0]:
                if s.op == 'segphi':
                    r = or_(r, atom(app('truthy', app('carried', mk('phiid', *s.args)))))
                    continue
                ch, g, e = s.args
                r = or_(r, exists(ch, g) if ch else g)
            return r
        if o in ('cls', 'fn', 'closure', 'bound', 'mod', 'bm', 'lam', 'static', 'field', 'annotated', 'plainset'):
            return TRUE
        if o == 'app' and v.args[0] in ('ext:re.search', 'ext:re.match', 'ext:re.fullmatch'):
            return not_(atom(app('isnone', v)))  # a match is always true
        if o == 'fmt':
            return TRUE if any(isinstance(p, str) and p for p in v.args[0]) else atom(app('truthy', v))
        if o == 'app' and v.args[0] == 'quoted':
            return v.args[1]
        if o == 'app' and v.args[0] in ('list', 'keys', 'tuple', 'sorted', 'set') and len(v.args) >= 2:
            return self.truth(v.args[1])
        if o == 'app' and v.args[0] == 'len':
            return self.truth(v.args[1])
        if o == 'app' and v.args[0] == 'range':
            return lt(v.args[1], v.args[2])
        if o == 'poly':
            return not_(eq(v, ZERO))
        ty = self.type_of(v)
        if ty and ty[0] == 'cls' and isinstance(ty[1], ClassInfo) and not ty[1].find('__bool__') and \
                not ty[1].find('__len__') and not ty[1].external_bases():
            return not_(eq(v, NONE))
        return atom(app('truthy', v))

    def isinstance_(self, v, c):
        if v.op == 'ite':
            return lift(None, lambda x: self.isinstance_(x, c), v)
        if c.op == 'seq':
            if v.op == 'num' and {'builtins.int', 'builtins.float'} <= {s.args[2].args[0] for s in c.args[0] if s.args[2].op == 'ext'}:
                return TRUE
            r = FALSE
            for s in c.args[0]:
                r = or_(r, self.isinstance_(v, s.args[2]))
            return r
        if c.op == 'app' and c.args[0] == 'bitor':
            return or_(self.isinstance_(v, c.args[1]), self.isinstance_(v, c.args[2]))
        if c.op == 'obj' and self.cell(c).kind == 'list':
            return self.isinstance_(v, self.content(c))
        if c.op == 'ext' and c.args[0] == 'builtins.type' and False:
            return FALSE
        if v.op == 'obj':
            cell = self.cell(v)
            if cell.kind == 'inst':
                if c.op == 'cls':
                    return const(cell.cls.is_a(self.cls_of(c)))
                return FALSE
            if c.op == 'ext':
                return const({'list': 'builtins.list', 'dict': 'builtins.dict', 'set': 'builtins.set'}[cell.kind] == c.args[0])
            return FALSE
        if v.op == 'seq':
            return const(c.op == 'ext' and c.args[0] == 'builtins.tuple')
        if v.op == 'const':
            val = v.args[0]
            n = c.args[0] if c.op == 'ext' else ''
            if val is None:
                return const(n == 'types.NoneType' or (c.op == 'app' and c.args[0] == 'nonetype'))
            if isinstance(val, str):
                return const(n == 'builtins.str')
            if isinstance(val, bool):
                return const(n in ('builtins.bool', 'builtins.int'))
        if v.op == 'fmt':
            return const(c.op == 'ext' and c.args[0] == 'builtins.str')
        if v.op in ('num', 'poly') and c.op == 'cls':
            return FALSE
        if v.op == 'app' and v.args[0] in tm.ARRAYS and (c.op == 'cls' or c.op == 'ext' and c.args[0] in CONTAINERS):
            return const(c.op == 'ext' and c.args[0] == 'numpy.ndarray')
        if v.op == 'app' and (v.args[0] == 'ext:pathlib.Path' or v.args[0] == 'pathjoin' and self.is_path(v.args[1])) and c.op == 'ext':
            return const(c.args[0] in ('pathlib.Path', 'pathlib.PurePath', 'os.PathLike'))
        if v.op == 'app' and v.args[0] in ('m:as_posix', 'm:strftime', 'm:title', 'm:isoformat') and c.op == 'ext':
            return const(c.args[0] == 'builtins.str')
        if v.op == 'sym' and v in tm.KIND:
            if c.op == 'cls':
                return FALSE
            if c.op == 'ext' and c.args[0] in CONTAINERS:
                return const(c.args[0] == tm.KIND[v])
        if v.op == 'num' and c.op == 'ext' and c.args[0] in ('builtins.str', 'builtins.list', 'builtins.dict', 'builtins.tuple'):
            return FALSE
        if c.op == 'cls':
            # declared exactly that class or a subclass: only when the declaration is not a union
            if v.op == 'sym' and v in tm.GIVEN:
                ty = self.type_of(v)
                if isinstance(ty, tuple) and ty[0] == 'cls':
                    k = self.cls_of(c)
                    if ty[1].is_a(k):
                        return TRUE
                    if not any(x.is_a(ty[1]) and x.is_a(k) for x in self.prog.classes.values()):
                        return FALSE  # no class of the package is both
            if v.op == 'app' and v.args[0] == 'get':  # an entry of a dict that is declared to hold things of another kind
                ty = self.type_of(v)
                if isinstance(ty, tuple) and ty[0] == 'cls':
                    k = self.cls_of(c)
                    if not any(x.is_a(ty[1]) and x.is_a(k) for x in self.prog.classes.values()):
                        return FALSE
        if c.op == 'app' and c.args[0] == 'nonetype':
            return eq(v, NONE)
        return atom(app('isinstance', v, c))


# ------------------------------------------------------------------------------------------------ helpers
def _neg(t):
    return is_num(t) and num_of(t) < 0


def is_bool_diagram(v):
    """a gate: every leaf is True/False and at least one atom"""
    if v.op != 'ite':
        return False
    r = _bool_memo.get(v)
    if r is None:
        r = all((x in (TRUE, FALSE)) or is_bool_diagram(x) for x in v.args[1:])
        _bool_memo[v] = r
    return r


_bool_memo = {}


def _quote(v):
    return app('quoted', v) if is_bool_diagram(v) else v


def unquote(v):
    return v.args[1] if v.op == 'app' and v.args[0] == 'quoted' else v


def _has_undef(v):
    return v is UNDEF or (v.op == 'ite' and any(leaf is UNDEF for _, leaf in leaves(v)))


def _is_logger(expr):
    return isinstance(expr, ast.Call) and isinstance(expr.func, ast.Attribute) and expr.func.attr == 'getLogger'


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
            body[0].value.value, str):
        return body[1:]
    return body


def _only_raises(fi):
    b = strip_doc(fi.node.body)
    if len(b) != 1 or not isinstance(b[0], ast.Raise) or b[0].exc is None:
        return False
    e = b[0].exc.func if isinstance(b[0].exc, ast.Call) else b[0].exc
    return isinstance(e, ast.Name) and e.id == 'NotImplementedError'


_role_memo = {}


def _private_role(prog, cls, name):
    """a private attribute that only ever holds None or one freshly made K is known by that role, not by its name"""
    roles = _role_memo.get((id(prog), cls))
    if roles is None:
        roles = _role_memo[(id(prog), cls)] = _roles_of(prog, cls)
    return roles.get(name)


def _roles_of(prog, cls):
    made = {}
    for c in cls.mro():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    tgts, v = n.targets, n.value
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tgts, v = [n.target], n.value
                else:
                    continue
                for t in tgts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and (
                            t.attr.startswith('_')):
                        if isinstance(v, ast.Constant) and v.value is None:
                            continue
                        k = None
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                            r = prog.resolve(f.module, v.func.id)
                            k = r.name if isinstance(r, ClassInfo) else None
                        made.setdefault(t.attr, set()).add(k)
    by = {}
    for a, ks in made.items():
        if len(ks) == 1 and None not in ks:
            by.setdefault(next(iter(ks)), []).append(a)
    return {v[0]: 'role:' + k for k, v in by.items() if len(v) == 1}


from .tables import (BUILTINS, DICT_METHODS, INTRINSIC_CLASSES, INTRINSIC_FUNCS, INTRINSIC_METHODS,  # noqa: E402
                     LIST_METHODS, STR_METHODS, _PYBUILTINS)
