"""Obligations: an entry of the analysed code and a reference, interpreted on the same symbolic inputs and compared.

A reference file (specs/*.py) is parsed, never executed.  It holds pairs of functions with the same parameters:
`impl_x` drives the public interface of the package, `spec_x` says what the outcome must be, in a small vocabulary
(VAR, EQ, LE, TERM, RHS, ...).  Both are interpreted abstractly; the pictures of the two runs must coincide.
"""

import ast
import os
import re

from . import cases
from . import engine as en
from . import observe as ob
from . import terms as tm
from .engine import Frame, Opts, exists
from .machine import Machine
from .program import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo, Program, _top_statements, parse_type
from .tables import _append_segs, make_equation, make_variable, register
from .terms import (FALSE, NONE, ONE, TRUE, UNDEF, ZERO, T, and_, app, atom, const, ite, leaves, lift, mk, not_, or_,
                    show, subst, sym)

DSL = ('VAR', 'EQ', 'LE', 'TERM', 'RHS', 'ASSUME', 'UNORDERED', 'ANY', 'OPAQUE', 'ROLE', 'SYM', 'IGNORE', 'REG',
       'CALL', 'NOTE', 'BAG', 'SAYS', 'LABELLED', 'SETATTR', 'SPECIAL', 'FIELDS')

PURE_EXT = re.compile(r'^ext:(float|int|str|len|isinstance|np\.|pandas\.|pd\.|math\.|bool|repr|type|min|max|abs|round|sum|'
                      r'datetime|copy|id|hash|numpy|time\.|timeit|os\.path|pathlib|inspect|warnings|iter|next|list|dict|'
                      r'set|tuple|sorted|zip|enumerate|map|filter|range|super|print|format)')


# attributes that are decided by obligations of their own and stay symbols everywhere else
OPAQUE_BY_DEFAULT = ('TimeSeries.active_data', 'TimeSeries.active_data_vector', 'TimeSeries.is_scalar',
                     'TimeSeries.is_array', 'InvestParameters.minimum_size', 'InvestParameters.maximum_size')


class SpecMachine(Machine):
    """adds the vocabulary of the references"""

    def __init__(self, prog, opts):
        super().__init__(prog, opts)
        self.assumed = TRUE
        self.notes = []

    def x_VAR(self, pos, kw, node):
        names = ['label', 'length', 'lower_bound', 'upper_bound', 'is_binary', 'fixed_value', 'previous_values']
        env = {n: NONE for n in names}
        env['is_binary'] = FALSE
        env.update(zip(names, pos))
        for k, v in kw.items():
            k = {'lower': 'lower_bound', 'upper': 'upper_bound', 'binary': 'is_binary', 'fixed': 'fixed_value',
                 'previous': 'previous_values'}.get(k, k)
            env[k] = v
        env['label_short'] = NONE
        t = make_variable(self, self.prog.cls('Variable'), env, node)
        self.cell(t).attrs['time_series_type'] = tm.lt(ONE, env['length'])
        register(self, 'variable', NONE, t, node)
        return t

    def _row(self, cls, pos, kw, node):
        t = make_equation(self, self.prog.cls(cls), {'label': const(''), 'label_short': NONE,
                                                     'is_objective': kw.get('objective', FALSE)}, node)
        register(self, 'constraint', NONE, t, node)
        return t

    def x_EQ(self, pos, kw, node):
        return self._row('Equation', pos, kw, node)

    def x_LE(self, pos, kw, node):
        return self._row('Inequation', pos, kw, node)

    def x_TERM(self, pos, kw, node):
        """TERM(row, coefficient, variable, indices=None, as_sum=False)"""
        row, coef, var = pos[:3]
        idx = pos[3] if len(pos) > 3 else kw.get('idx', NONE)
        as_sum = self.truth(kw.get('as_sum', FALSE))
        self.dispatch(row, lambda r: _append_segs(self, self.get_attr(r, 'summands'),
                                                  [((), TRUE, mk('summand', var, coef, idx, as_sum))]) or NONE)
        return NONE

    def x_REG(self, pos, kw, node):
        """REG(equation): count an equation that the code keeps for itself (the objective) among the constraints"""
        register(self, 'constraint', NONE, pos[0], node)
        return NONE

    def x_RHS(self, pos, kw, node):
        self.dispatch(pos[0], lambda r: _append_segs(self, self.get_attr(r, 'parts_of_constant'),
                                                     [((), TRUE, pos[1])]) or NONE)
        return NONE

    def x_ASSUME(self, pos, kw, node):
        for p in pos:
            self.live = and_(self.live, self.truth(p))
        return NONE

    def x_UNORDERED(self, pos, kw, node):
        return lift(None, lambda x: app('unordered', x), pos[0])

    def x_BAG(self, pos, kw, node):
        """the contents of a collection without their order"""
        return self.x_UNORDERED(pos, kw, node)

    def x_SAYS(self, pos, kw, node):
        """the values a text shows, in order, whatever the words and paddings around them"""
        def go(x):
            def walk(t, out):
                if t.op == 'fmt':
                    for q in t.args[0]:
                        if isinstance(q, T):
                            walk(q, out)
                elif t.op == 'app' and (t.args[0] in ('format', 'repr', 'ext:repr') or t.args[0] == 'index' and t.args[2].op == 'app'
                                        and t.args[2].args[0] == 'slice'):
                    walk(t.args[1], out)
                elif t.op == 'app' and t.args[0] == 'join' and t.args[2].op == 'seq':
                    for s in t.args[2].args[0]:
                        if s.op != 'seg':
                            out.append(s)
                            continue
                        said = walk(s.args[2], [])
                        if not s.args[0] and s.args[1] is TRUE:
                            out += said
                        elif said:
                            out.append(en.seq([en.seg(s.args[0], s.args[1], said[0] if len(said) == 1 else listed(said))]))
                elif t.op == 'app' and t.args[0] == 'join':
                    out.append(t.args[2])
                elif not (t.op == 'const' and isinstance(t.args[0], str)):
                    out.append(t)
                return out

            return listed(walk(x, []))

        def listed(ts):
            return en.seq([en.seg((), TRUE, t) for t in ts])
        return lift(None, go, pos[0])

    def x_ANY(self, pos, kw, node):
        return mk('const', 'any')

    def x_SYM(self, pos, kw, node):
        """SYM('name') : a fresh unknown, SYM('name', Class) typed"""
        ty = None
        if len(pos) > 1:
            c = pos[1]
            ty = ('cls', self.cls_of(c)) if c.op == 'cls' else None
            if c.op == 'ext':
                ty = {'builtins.str': 'str', 'builtins.int': 'num', 'builtins.float': 'num', 'builtins.bool': 'bool',
                      'builtins.list': ('list', None), 'builtins.dict': ('dict', None, None)}.get(c.args[0])
        return sym(pos[0].args[0], ty)

    def x_OPAQUE(self, pos, kw, node):
        """OPAQUE('Class.method', args...) : the value of a call that is not looked into"""
        return self.lift_app('call:' + pos[0].args[0], *[self.ext_arg(p) for p in pos[1:]])

    def x_CALL(self, pos, kw, node):
        r = self.lift_app('call:' + pos[0].args[0], *[self.ext_arg(p) for p in pos[1:]])
        self.effect(r, node)
        if len(pos) > 1 and pos[1].op == 'obj' and self.cell(pos[1]).kind == 'inst':
            self.cell(pos[1]).havoc = True
        return r

    def x_ROLE(self, pos, kw, node):
        """ROLE(obj, 'OnOffModel') : the attribute of obj that holds its OnOffModel, however it is called"""
        return self.dispatch(pos[0], lambda v: self.get_role(v, pos[1].args[0], node))

    def get_role(self, v, role, node):
        if v.op == 'obj':
            c = self.cell(v)
            for k, x in c.attrs.items():
                for g, leaf in leaves(x):
                    if leaf.op == 'obj' and self.cell(leaf).kind == 'inst' and self.cell(leaf).cls.name == role:
                        return self.get_attr(v, k, node)
            return NONE
        return mk('attr', v, 'role:' + role)

    def x_NOTE(self, pos, kw, node):
        self.notes.append((self.chain, self.live, pos[0]))
        return NONE


class SpecProgram(Program):
    """the package plus the reference files as additional modules"""

    def __init__(self, root, files=()):
        super().__init__(root)
        self.obligations = []
        self._role_memo = {}
        for f in files:
            self.add_spec(f)

    def add_spec(self, path):
        name = 'spec_' + os.path.basename(path)[:-3]
        if name in self.modules:
            return self.modules[name]
        with open(path, encoding='utf-8') as fh:
            tree = ast.parse(fh.read())
        m = ModuleInfo(name, 'reference ' + os.path.basename(path), tree)
        self.modules[name] = m
        consts = {'dict': dict}
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                m.functions[n.name] = FuncInfo(n, m, overlay=True)
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = self._class(n, m)
                for f in m.classes[n.name].methods.values():
                    f.overlay = True
            elif isinstance(n, ast.Assign) and n.targets[0].id == 'OBLIGATIONS':
                for d in eval(compile(ast.Expression(n.value), path, 'eval'), {'__builtins__': {}}, consts):
                    d['module'] = m
                    self.obligations.append(d)
            elif isinstance(n, ast.ImportFrom) and (n.module or '').startswith('specs.'):
                other = n.module[len('specs.'):]
                self.add_spec(os.path.join(os.path.dirname(path), other + '.py'))
                for a in n.names:
                    m.imports[a.asname or a.name] = ('from', '.spec_' + other, a.name)
            else:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
                    consts[n.targets[0].id] = eval(compile(ast.Expression(n.value), path, 'eval'), {'__builtins__': {}}, consts)
                self._import_or_assign(n, m)
        for nm, imp in m.imports.items():
            if imp[0] == 'from' and imp[1].startswith(self.package):
                r = self.resolve(m, nm)
                if r is None or (isinstance(r, tuple) and r[0] == 'ext'):
                    raise AnalysisBroken(f'{imp[1]}.{imp[2]}, which {m.relpath} describes, is gone')
        for c in m.classes.values():
            for b in c.base_exprs:
                r = self.resolve(m, b.id)
                c.bases.append(r if isinstance(r, ClassInfo) else b.id)
                if isinstance(r, ClassInfo):
                    r.subclasses.append(c)
        return m


class Picture:
    def __init__(self, ip, ret, d):
        self.ip = ip
        keep_exc = d.get('exceptions', False)
        fz = ob.Freezer(ip)
        drop = (lambda t: t) if keep_exc else _drop_exc
        self.live = drop(fz(ip.live))
        self.rows, self.vars, self.where = ob.model_rows(ip)
        self.ret = ob.Freezer(ip, fz(ip.live))(ret)
        self.raises, rw = ob.raise_map(ip)
        self.where.update(rw)
        self.effects, ew = effects(ip, fz, d)
        self.where.update(ew)
        self.logs = {}
        if d.get('logs'):
            for ch, g, level, w, said in ip.logs:
                if d['logs'] == 'said':
                    self._said(ip, fz, ch, g, level, w, said)
                if level in ('debug', 'info', 'print'):
                    continue
                k = ('log', level)
                gg = fz(g)
                self.logs[k] = or_(self.logs.get(k, FALSE), exists(ch, gg) if ch else gg)
                self.where.setdefault(k, w)
        for nm in ('rows', 'vars', 'raises', 'effects', 'logs'):
            setattr(self, nm, {k: drop(v) for k, v in getattr(self, nm).items()})
        self.ret = drop(self.ret)
        self.focus(d)

    def _said(self, ip, fz, ch, g, level, w, texts):
        """the values messages show, each with the cases in which it is shown; how they are split into messages is free"""
        for text in texts:
            for when, said in leaves(ip.x_SAYS([text], {}, None)):
                todo = [(ch, and_(g, when), s.args[2]) for s in said.args[0]]
                while todo:
                    c, cond, v = todo.pop()
                    if v.op == 'seq' and all(s.op == 'seg' for s in v.args[0]):
                        todo += [(c + s.args[0], and_(cond, s.args[1]), s.args[2]) for s in v.args[0]]
                        continue
                    if v.op == 'ite':
                        todo += [(c, and_(cond, k), x) for k, x in leaves(v)]
                        continue
                    if v.op == 'const' and isinstance(v.args[0], str):
                        continue
                    if c:
                        k, cond = fz(en.seq([en.seg(c, cond, v)])), TRUE
                    else:
                        k, cond = fz(v), fz(cond)
                    k = ('shown', level, k)
                    self.logs[k] = or_(self.logs.get(k, FALSE), cond)
                    self.where.setdefault(k, w)

    def focus(self, d):
        """keep the part of the picture the obligation is about"""
        if 'about' in d or 'not_about' in d:
            yes, no = d.get('about', ['']), d.get('not_about', [])

            def hit(text):
                return any(re.search(p, text) for p in yes) and not any(re.search(p, text) for p in no)
            self.vars = {k: v for k, v in self.vars.items() if hit(show(k[2]))}
            self.rows = {k: v for k, v in self.rows.items() if hit(_row_text(k[2]))}
        if 'effects_about' in d:
            pats = d['effects_about']
            self.effects = {k: v for k, v in self.effects.items()
                            if any(re.search(p, show_key(k)) for p in pats)}


def _row_text(row):
    if row.op != 'row':
        return show(row)
    return ' '.join(show(c.args[1]) for c in row.args[3])


_drop_memo = {}


def _drop_exc(t):
    """the world in which no library call fails"""
    if t.op != 'ite':
        return t
    r = _drop_memo.get(t)
    if r is None:
        a = t.args[0]
        hi, lo = _drop_exc(t.args[1]), _drop_exc(t.args[2])
        r = lo if a.op == 'app' and a.args[0] == 'exc' else tm.mk_ite(a, hi, lo)
        _drop_memo[t] = r
    return r


MUTATORS = {'setattr', 'setitem', 'delitem', 'delattr', 'm:__iop__'} | {'m:' + x for x in (
    'append extend insert remove pop popitem clear update setdefault sort reverse add discard fill put resize itemset '
    'partition difference_update intersection_update symmetric_difference_update appendleft popleft move_to_end '
    'set_index reset_index __iadd__ __isub__ __imul__ __itruediv__ __ior__ __setitem__ __setattr__ __delitem__').split()}
SHARED = {'m:copy', 'm:values', 'm:keys', 'm:items', 'm:get', 'm:tolist', 'm:loc', 'ext:copy.copy', 'list', 'tuple', 'sorted', 'reversed',
          'enumerate', 'zip', 'keys', 'values', 'items'}


def _existed(t):
    """is t, or may it be, an object that was there before the call (rather than a copy or a new object)"""
    if t.op in ('sym', 'cls', 'mod', 'name'):
        return True
    if t.op == 'attr':
        return _existed(t.args[0])
    if t.op == 'bv':
        return _content_existed(t.args[1])
    if t.op == 'ite':
        return _existed(t.args[1]) or _existed(t.args[2])
    if t.op == 'app' and t.args[0] in ('get', 'index', 'm:get', 'm:setdefault', 'attr', 'getattr'):
        return _content_existed(t.args[1])
    return False


def _new_table(ip, t):
    while t.op == 'app' and t.args[0] == 'setitem':
        t = t.args[1]
    return t.op == 'app' and t.args[0].startswith('m:') and ip.is_frame(t)


def _content_existed(t):
    """are the items of t objects that were there before"""
    if t.op == 'app' and t.args[0] in SHARED:
        return any(_content_existed(a) for a in t.args[1:] if isinstance(a, T))
    return _existed(t)


def effects(ip, fz, d):
    """{key: diagram}: calls that leave the analysed code (guards) and final values of outside attributes"""
    pure = set(d.get('pure', ()))
    ignore = set(d.get('ignore', ()))
    only = d.get('effects')  # list of name patterns, None = all, [] = none
    out, where = {}, {}
    order = []
    for chain, guard, t, w in ip.effects:
        for g, l in leaves(fz(t), fz(guard)):
            if g is FALSE:
                continue
            if l.op != 'app':
                name = l.op
            else:
                name = l.args[0]
            if PURE_EXT.match(name) and not d.get('writes'):
                continue
            nm = name.split(':', 1)[-1]
            if nm in pure or nm in ignore or name in ignore:
                continue
            if name == 'setitem' and l.args[1].op == 'app' and _new_table(ip, l.args[1]):
                continue  # what becomes of a table made here shows where the table goes
            if d.get('writes') and not (name in MUTATORS and _existed(l.args[1]) or any(
                    a.op == 'kw' and a.args[0] in ('out', 'inplace') and (a.args[0] == 'inplace' and len(l.args) > 1 and _existed(l.args[1])
                                                                         or _existed(a.args[1])) for a in l.args[1:] if isinstance(a, T))):
                continue
            if name == 'setattr':
                nm = 'setattr.' + l.args[2].args[0]
                if nm in ignore or 'setattr' in ignore:
                    continue
            if only is not None and not any(re.fullmatch(p, nm) for p in only):
                continue
            if name == 'setattr':
                ch, obj, at, val, g1 = ob.canon(chain, l.args[1], l.args[2], l.args[3], g)
                if d.get('ordered') == 'attributes':  # what is set counts as a step
                    order.append((ch, g1, app('setattr', obj, at, val)))
                    continue
                key = ('attribute', ch, obj, at)
                out[key] = ite(g1, en._quote(val), out.get(key, UNDEF))
                where.setdefault(key, w)
                continue
            ch, t1, g1 = ob.canon(chain, l, g)
            key = ('call', ch, t1)
            if d.get('ordered'):
                order.append((ch, g1, t1))
            n = 0
            while (key if not n else key + (n,)) in out and and_(out[key if not n else key + (n,)], g1) is not FALSE:
                n += 1
            key = key if not n else key + (n,)
            out[key] = or_(out.get(key, FALSE), g1)
            where.setdefault(key, w)
    if d.get('ordered'):
        out = {k: v for k, v in out.items() if k[0] != 'call'}
        segs = []
        swaps = [set(p) for p in d.get('commute', ())]  # calls whose order does not matter
        moved = bool(swaps)
        while moved:
            moved = False
            for i in range(len(order) - 1):
                x, y = (o[2].args[0].split(':', 1)[-1] for o in order[i:i + 2])
                if {x, y} in swaps and (x > y or x == y and show(order[i][2]) > show(order[i + 1][2])):
                    order[i], order[i + 1] = order[i + 1], order[i]
                    moved = True
        for ch, g, t in order:
            g = g if d.get('exceptions') else _drop_exc(g)
            segs.append(en.seg(ch, g, t))
        out[('order of calls',)] = en.seq(segs)
    return out, where


class Difference:
    def __init__(self, category, key, got, want, where):
        self.category, self.key, self.got, self.want, self.where = category, key, got, want, where

    def text(self, n=1500):
        def cut(s):
            return s if len(s) <= n else s[:n] + ' ...'
        return (f'{self.category} {cut(show_key(self.key))}\n      in the code:    {cut(show(self.got))}\n'
                f'      must be:        {cut(show(self.want))}\n      at {self.where}')

    def broken(self):
        return any(_has_op(x, ('unsupported', 'havoc')) for x in (self.got, *self.key) if isinstance(x, (T, tuple)))

    def signature(self):
        return f'{self.category}|{show_key(self.key)}|{show(self.got)}'


def _has_op(x, names, memo=None):
    memo = {} if memo is None else memo
    if isinstance(x, tuple):
        return any(_has_op(y, names, memo) for y in x)
    if not isinstance(x, T):
        return False
    r = memo.get(x)
    if r is None:
        memo[x] = False
        r = (x.op == 'app' and x.args[0] in names) or any(_has_op(y, names, memo) for y in x.args)
        memo[x] = r
    return r


def show_key(k):
    if not isinstance(k, tuple):
        return show(k) if isinstance(k, T) else str(k)
    head = str(k[0])
    if head == 'row':
        return ('for ' + ', '.join(show(b) for b in k[1]) + ': ' if k[1] else '') + ob.show_row(k[2])
    rest = []
    for x in k[1:]:
        if x == ():
            continue
        rest.append('for ' + ', '.join(show(b) for b in x) if isinstance(x, tuple) else show(x) if isinstance(x, T) else str(x))
    return head + ' ' + ' '.join(rest)


def _atoms_of(t, out, seen):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            out.add(x.args[0])
            todo += x.args[1:]


def axioms(*ts, chain=()):
    """what is impossible about the conditions in these diagrams (None is no instance, a < b excludes b < a, ...);
    chain: the bound variables of the compared item, of which every `exists` over the same domain speaks"""
    at, seen = set(), set()
    for t in ts:
        _atoms_of(t, at, seen)
    by = {}
    for a in at:
        if a.op == 'app' and len(a.args) > 1 and isinstance(a.args[1], T):
            x = a.args[1]
            if a.args[0] == 'eq':
                for u, v in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
                    if v.op in ('const', 'num', 'fmt'):
                        by.setdefault(u, []).append(('eq', v, a))
            elif a.args[0] == 'isinstance':
                by.setdefault(x, []).append(('isinstance', a.args[2], a))
            elif a.args[0] in ('isnone', 'truthy', 'isscalar'):
                by.setdefault(x, []).append((a.args[0], None, a))
            elif a.args[0] in ('lt0', 'eq0'):
                p = tm._poly_of(x)
                q = x if min(p.items(), key=lambda mc: [(y.key, e) for y, e in mc[0]])[1] > 0 else tm.neg(x)
                by.setdefault(app('cmp', q), []).append((a.args[0], x, a))
    k = TRUE
    for a in at:  # what equals a text that is no number is no number
        if a.op == 'app' and a.args[0] == 'nonumber':
            for kind, v, b in by.get(a.args[1], ()):
                if kind == 'eq' and v.op == 'const' and isinstance(v.args[0], str) and not v.args[0].strip()[:1].isdigit():
                    k = and_(k, or_(not_(atom(b)), atom(a)))
                elif kind == 'isnone':
                    k = and_(k, not_(and_(atom(a), atom(b))))
    for a in at:
        if a.op == 'exists' and chain and len(a.args[0]) == 1:
            b = a.args[0][0]
            for c in chain:
                if c is b or (c.op == 'bv' and c.args[1] is b.args[1]):
                    k = and_(k, or_(not_(subst(a.args[1], {b: c}) if c is not b else a.args[1]), atom(a)))

    def both(a, b):
        nonlocal k
        k = and_(k, not_(and_(atom(a), atom(b))))
    for x, fs in by.items():
        if len(fs) < 2:
            continue
        for i, (k1, v1, a1) in enumerate(fs):
            for k2, v2, a2 in fs[i + 1:]:
                kinds = {k1, k2}
                if kinds <= {'lt0', 'eq0'}:
                    both(a1, a2)
                elif 'isnone' in kinds and kinds & {'truthy', 'isinstance', 'eq'}:
                    both(a1, a2)
                elif kinds == {'eq'} and v1 is not v2 and v1.op != 'fmt' and v2.op != 'fmt':
                    both(a1, a2)
        lt = [a for kk, v, a in fs if kk == 'lt0']
        eq0 = [a for kk, v, a in fs if kk == 'eq0']
        if len(lt) == 2 and eq0:
            k = and_(k, or_(atom(lt[0]), atom(lt[1]), atom(eq0[0])))
    counts = {}  # a length is a whole number: 0, 1, 2, ..; what has one is truthy from 1 on
    for a in at:
        if a.op == 'app' and a.args[0] in ('lt0', 'eq0'):
            p = tm._poly_of(a.args[1])
            var = [(m[0][0], c) for m, c in p.items() if m]
            if len(var) == 1 and len(p) <= 2 and sum(len(m) for m in p) == 1 and var[0][0].op == 'app' and var[0][0].args[0] == 'len':
                m = next(m for m in p if m)
                const_ = next((c for mm, c in p.items() if not mm), 0)
                if m[0][1] == 1:
                    counts.setdefault(var[0][0], []).append((a, a.args[0], var[0][1], const_))
    for n_, fs in counts.items():
        has = app('truthy', n_.args[1])
        if len(fs) + (has in at) < 2:
            continue
        top = max(int(-c / f) if f else 0 for _, _, f, c in fs) + 2
        if not 0 < top < 12:
            continue
        some = FALSE
        for v in range(top + 1):
            here = TRUE
            for a, how, f, c in fs:
                val = f * v + c
                here = and_(here, atom(a) if (val < 0 if how == 'lt0' else val == 0) else not_(atom(a)))
            if has in at:
                here = and_(here, atom(has) if v else not_(atom(has)))
            some = or_(some, here)
        k = and_(k, some)
    for a in at:  # equal things are None together
        if a.op == 'app' and a.args[0] == 'eq0':
            ms = [m[0][0] if len(m) == 1 and m[0][1] == 1 else None for m in tm._poly_of(a.args[1])]
            if len(ms) == 2 and None not in ms:
                a1, a2 = app('isnone', ms[0]), app('isnone', ms[1])
                if a1 in at and a2 in at:
                    n1, n2 = atom(a1), atom(a2)
                    k = and_(k, or_(not_(atom(a)), and_(n1, n2), and_(not_(n1), not_(n2))))
    return k


def compare(a, b, d, fallback):
    """differences of picture a (code) against b (reference)"""
    out = []
    care = and_(a.live, b.live)
    n = 0

    def cmp(cat, key, x, y, absent, where, cond=None):
        nonlocal n
        n += 1
        c = care if cond is None else cond
        x1, y1 = ite(c, x, absent), ite(c, y, absent)
        if x1 is not y1:
            ch = key[1] if isinstance(key, tuple) and len(key) > 1 and isinstance(key[1], tuple) else ()
            k = axioms(x1, y1, chain=ch)
            x1, y1 = ite(k, x1, absent), ite(k, y1, absent)
        if x1 is not y1 and not cases.equal(x1, y1):
            out.append(Difference(cat, key, x1, y1, where or fallback))

    lost = and_(b.live, not_(a.live))
    lost = and_(lost, axioms(lost))
    n += 1
    if lost is not FALSE and (not d.get('may_fail') or a.live is FALSE):
        rs = [w for k, w in a.where.items() if k[0] == 'raise' and w]
        out.append(Difference('completion', ('the call must complete normally when', lost), a.live, b.live,
                              ', '.join(rs) or fallback))
    parts = d.get('observe', ('rows', 'vars', 'effects', 'return'))
    if 'rows' in parts:
        for k in _keys(a.rows, b.rows):
            cmp('constraint', k, a.rows.get(k, FALSE), b.rows.get(k, FALSE), FALSE, a.where.get(k))
    if 'vars' in parts:
        for k in _keys(a.vars, b.vars):
            if k[3] == 'previous_values' and 'previous' not in parts:
                continue
            cmp('variable', k, a.vars.get(k, UNDEF), b.vars.get(k, UNDEF), UNDEF, a.where.get(k))
    if 'effects' in parts:
        for k in _keys(a.effects, b.effects):
            ab = UNDEF if k[0] == 'attribute' else FALSE
            if k[0] == 'order of calls':
                cmp('order', k, a.effects.get(k, UNDEF), b.effects.get(k, UNDEF), UNDEF, fallback)
            else:
                cmp('effect', k, a.effects.get(k, ab), b.effects.get(k, ab), ab, a.where.get(k),
                    cond=TRUE if d.get('fail_at') else None)
    if 'return' in parts:
        cmp_ret(a.ret, b.ret, care, fallback, out)
        n += 1
    if 'logs' in parts:
        for k in _keys(a.logs, b.logs):
            cmp('log', k, a.logs.get(k, FALSE), b.logs.get(k, FALSE), FALSE, a.where.get(k))
    if 'raises' in parts:
        for k in _keys(a.raises, b.raises):
            cmp('exception', k, a.raises.get(k, FALSE), b.raises.get(k, FALSE), FALSE, a.where.get(k), cond=TRUE)
    if 'rejects' in parts:  # only whether some exception stops the call, not its type
        x, y = or_(FALSE, *a.raises.values()), or_(FALSE, *b.raises.values())
        ws = [w for k, w in a.where.items() if k[0] == 'raise' and w]
        cmp('rejection', ('the call is rejected',), x, y, FALSE, ', '.join(ws) or fallback, cond=TRUE)
    return out, n


def _split(t):
    """named components of a returned dict or tuple, for readable reports"""
    if t.op == 'dct' and all(s.op == 'seg' and not s.args[0] and s.args[1] is TRUE and s.args[2].op == 'pair'
                             for s in t.args[0]):
        return {show(s.args[2].args[0]): s.args[2].args[1] for s in t.args[0]}
    if t.op == 'seq' and all(s.op == 'seg' and not s.args[0] and s.args[1] is TRUE for s in t.args[0]):
        return {i: s.args[2] for i, s in enumerate(t.args[0])}
    return None


def cmp_ret(x, y, care, fallback, out):
    x, y = ite(care, x, UNDEF), ite(care, y, UNDEF)
    if x is not y:
        k = axioms(x, y)
        care = and_(care, k)
        x, y = ite(k, x, UNDEF), ite(k, y, UNDEF)
    if x is y or cases.equal(x, y):
        return
    lx, ly = leaves(x, care), leaves(y, care)
    sx = [_split(l) for g, l in lx]
    sy = [_split(l) for g, l in ly]
    if all(s is not None for s in sx + sy) and len({tuple(sorted(map(str, s))) for s in sx + sy}) == 1:
        for k in sx[0]:
            u, v = UNDEF, UNDEF
            for (g, _), s in zip(lx, sx):
                u = ite(g, s[k], u)
            for (g, _), s in zip(ly, sy):
                v = ite(g, s[k], v)
            if u is not v:
                ax = axioms(u, v)
                u, v = ite(ax, u, UNDEF), ite(ax, v, UNDEF)
            if u is not v and not cases.equal(u, v):
                out.append(Difference('value', (f'observed {k}',), u, v, fallback))
        return
    out.append(Difference('value', ('result',), x, y, fallback))


def _keys(a, b):
    return list(a) + [k for k in b if k not in a]


def default_opts(prog, d, types=None):
    opaque = list(d.get('opaque', ()))
    opaque += [x for x in OPAQUE_BY_DEFAULT if x not in d.get('transparent', ())]
    facts = {}
    if 'EffectCollectionModel' in prog.classes and 'SystemModel' in prog.classes:
        facts[('SystemModel', 'effect_collection_model')] = ('cls', prog.classes['EffectCollectionModel'])
    defs = {}
    if not d.get('raw_system'):
        defs[('SystemModel', 'indices')] = lambda ip, v: app('range', ZERO, mk('attr', v, 'nr_of_time_steps'))
    o = Opts(opaque=opaque, raw=d.get('raw', False), type_facts=facts, attr_defs=defs, types=types,
                max_unroll=d.get('max_unroll', 24), recurse=d.get('recurse', 0), fail_at=d.get('fail_at', ()),
             writes=d.get('writes', False), keep_logs=d.get('logs') == 'said')
    o.mutators = MUTATORS if d.get('writes') else ()
    return o


KINDS = {'np.ndarray': 'numpy.ndarray', 'Scalar': 'scalar', 'str': 'builtins.str', 'dict': 'builtins.dict',
         'list': 'builtins.list', 'List[str]': 'builtins.list'}


def run_side(prog, d, fname, types=None):
    m = d['module']
    fi = m.functions.get(fname)
    if fi is None:
        raise AnalysisBroken(f'reference {m.relpath} has no function {fname}')
    ip = SpecMachine(prog, default_opts(prog, d, types))
    ip.frames.append(Frame({}, m))
    bound = []
    tm.GIVEN.clear()
    tm.KIND.clear()
    for p in fi.node.args.args:
        ty = parse_type(prog, p.annotation, m)
        bound.append(sym(p.arg, ty))
        if p.annotation is not None and 'Optional' not in ast.unparse(p.annotation):
            tm.GIVEN.add(bound[-1])
            kind = KINDS.get(ast.unparse(p.annotation))
            if kind is not None:
                tm.KIND[bound[-1]] = kind
    ret = ip.call_fi(fi, bound, {})
    return ip, Picture(ip, ret, d)


def run_obligation(prog, d):
    """(differences, statistics)"""
    types = {}
    ipa, a = run_side(prog, d, d['impl'])
    ipb, b = run_side(prog, d, d['spec'])
    fallback = d.get('anchor') or next((w for w in ipa.touched if not w.startswith('reference')), '')
    if d.get('anchor'):
        fi = prog.func(d['anchor'])
        fallback = fi.where
    diffs, n = compare(a, b, d, fallback)
    for _ in range(3):
        # what one side treats as a dict is one on the other side as well
        new = {x: ('dict', None, None) for x in ipa.dictlike | ipb.dictlike if x not in types}
        if not diffs or not new:
            break
        types.update(new)
        ipa, a = run_side(prog, d, d['impl'], types)
        ipb, b = run_side(prog, d, d['spec'], types)
        diffs, n = compare(a, b, d, fallback)
    stats = {
        'compared': n, 'constraints': len(b.rows), 'variables': len({k[:3] for k in b.vars}),
        'effects': len(b.effects), 'raises': len(b.raises),
        'functions': sorted(w for w in ipa.touched if not w.startswith('reference')),
        'unsupported': list(ipa.unsupported), 'calls': ipa.visited_calls,
    }
    if b.live is FALSE and not d.get('never_returns'):
        raise AnalysisBroken(f'obligation {d["name"]}: the reference never completes')
    if ipb.unsupported:
        raise AnalysisBroken(f'obligation {d["name"]}: reference uses unsupported construct {ipb.unsupported[:2]}')
    return diffs, stats, (ipa, a), (ipb, b)
