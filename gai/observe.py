"""Observations: canonical, comparable pictures of what one abstract run produced."""

from . import engine as en
from . import terms as tm
from .engine import exists, seg, seq
from .terms import (FALSE, NONE, ONE, TRUE, UNDEF, ZERO, T, add, and_, app, atom, const, is_num, ite, leaves, lift, mk,
                    mul, neg, not_, num_of, or_, restrict, show, sub, subst)


class Freezer:
    def __init__(self, ip, care=TRUE):
        self.ip, self.memo, self.active, self.care = ip, {}, set(), care

    def __call__(self, t):
        return self.s(t)

    def s(self, x):
        if isinstance(x, tuple):
            return tuple(self.s(y) for y in x)
        if not isinstance(x, T):
            return x
        r = self.memo.get(x)
        if r is None:
            r = self.phi(x) if x.op in ('phi', 'phiid', 'segphi') else self.obj(x) if x.op == 'obj' else (tm.rebuild(x, self.s) if x.args else x)
            if r.op == 'seg' and r.args[1] is not TRUE and self.care is not TRUE:
                r = seg(r.args[0], restrict(r.args[1], self.care), r.args[2])  # there whenever the call returns at all
            elif r.op in ('dct', 'seq'):
                r = norm_content(r)
            elif r.op == 'app' and r.args[0] == 'unordered' and r.args[1].op == 'seq':
                r = app('unordered', mk('seq', tuple(sorted(r.args[1].args[0], key=lambda s: s.key))))
            self.memo[x] = r
        return r

    def phi(self, x):
        """the value of a loop's variable at the start of an iteration, by its value after the loop"""
        final = self.ip.phimap.get(x.args[0])
        if final is None:
            return x
        chain, final = final
        final = subst(final, dict(zip(chain, x.args[1])))
        if x.args in self.active:
            return mk(x.op, 'c')
        self.active.add(x.args)
        try:
            final = self.s(final)
            return mk('segphi', final) if x.op == 'segphi' else lift(None, lambda v: app('atstart', v), final)
        finally:
            self.active.discard(x.args)

    def obj(self, x):
        ip = self.ip
        c = ip.cell(x)
        m = ip.rmap(x)
        if c.kind != 'inst':
            if x in self.active:
                return app('cycle')
            self.active.add(x)
            try:
                return self.s(norm_content(ip.content(x)))
            finally:
                self.active.discard(x)
        role = c.data.get('role')
        if role in ('variable', 'constraint'):
            lab = c.attrs['label']
            return mk('var' if role == 'variable' else 'constr', self.s(subst(lab, m) if m else lab))
        if x in self.active:
            return app('cycle')
        self.active.add(x)
        try:
            args = []
            for k, v in c.ctor or ():
                if v is UNDEF:
                    continue
                v = subst(v, m) if m else v
                args.append(mk('kw', k, en._quote(self.s(v))))
            return lift(None, lambda *a: app('new:' + c.cls.name, *a), *args)
        finally:
            self.active.discard(x)


def norm_content(t):
    """dict contents do not depend on insertion order"""
    if t.op == 'dct' and len(t.args[0]) == 1 and t.args[0][0].op == 'seg':  # {k: v for k, v in d.items()} is as d
        ch, g, p = t.args[0][0].args
        if len(ch) == 1 and g is TRUE and p.op == 'pair' and p.args[0] is ch[0] and ch[0].args[1].op == 'app' and \
                ch[0].args[1].args[0] == 'keys' and p.args[1] is app('get', ch[0].args[1].args[1], ch[0]):
            return ch[0].args[1].args[1]
    if t.op == 'dct' and all(s.op == 'seg' for s in t.args[0]):
        return mk('dct', tuple(sorted((s for s in t.args[0] if s.args[1] is not FALSE), key=lambda s: s.key)))
    if t.op == 'seq':
        return mk('seq', tuple(s for s in t.args[0] if s.op != 'seg' or s.args[1] is not FALSE))
    return t


def canon(chain, *xs):
    if not chain:
        return ((), *xs)
    return en._canon_bound(chain, *xs)


class Obs:
    """named entries -> diagram; each entry remembers where it came from"""

    def __init__(self):
        self.items = {}  # key -> (value diagram, where)
        self.meta = {}

    def put(self, key, guard, val, where='', absent=None):
        old = self.items.get(key)
        base = old[0] if old else (absent if absent is not None else UNDEF)
        self.items[key] = (ite(guard, val, base), (old[1] if old else '') or where)


def is_full_range(ip, idx, var_len):
    return idx is NONE


def model_rows(ip, care=TRUE):
    """(rows: {(chain, row): guard}, variables: {(chain,label,field): diagram}) of everything registered"""
    fz = Freezer(ip)
    rows, vars_, where = {}, {}, {}
    for kind, chain, guard, t, owner, w in ip.emits:
        guard = and_(guard, care) if care is not TRUE else guard
        if guard is FALSE:
            continue
        if kind == 'variable':
            if t.op != 'obj':
                lab, attrs = fz(t), {}
            else:
                c = ip.cell(t)
                m = ip.rmap(t)
                attrs = {k: (subst(v, m) if m else v) for k, v in c.attrs.items()}
                lab = attrs['label']
            for lg, lab1 in leaves(fz(lab), guard):
                for f in ('length', 'is_binary', 'fixed_value', 'lower_bound', 'upper_bound', 'previous_values'):
                    if f not in attrs:
                        continue
                    v = fz(attrs[f])
                    ch, l1, v1, g1 = canon(chain, lab1, v, lg)
                    key = ('variable', ch, l1, f)
                    old = vars_.get(key, UNDEF)
                    vars_[key] = ite(g1, v1, old)
                    where.setdefault(key, w)
            continue
        if t.op != 'obj':
            key = ('row', chain, app('foreign', fz(t)))
            rows[key] = or_(rows.get(key, FALSE), guard)
            where.setdefault(key, w)
            continue
        c = ip.cell(t)
        for g, row in leaves(build_row(ip, fz, t), guard):
            ch, r1, g1 = canon(chain, row, g)
            key = ('row', ch, r1)
            rows[key] = or_(rows.get(key, FALSE), g1)
            where.setdefault(key, w)
    return rows, vars_, where


def build_row(ip, fz, t):
    """diagram of fully resolved rows of one constraint"""
    c = ip.cell(t)
    m = ip.rmap(t)
    coef = {}
    kind = 'eq' if c.cls.name == 'Equation' else 'ineq'
    content = ip.content(c.attrs['summands'])
    if m:
        content = subst(content, m)
    if content.op != 'seq':
        return app('row', const('unresolved'), fz(content))
    for s in content.args[0]:
        if s.op != 'seg':
            return app('row', const('unresolved'), fz(content))
        ch, g, sm = s.args
        g = fz(g)
        if g is FALSE:
            continue
        if sm.op != 'summand':
            return app('row', const('unresolved'), fz(content))
        var, factor, idx, as_sum = (fz(x) for x in sm.args)
        for gv, v in leaves(var, g):
            for gi, i in leaves(idx, gv):
                if is_num(i):
                    i = seq([seg((), TRUE, i)])
                elif i.op == 'app' and i.args[0] == 'range' and i.args[1] is ZERO and _is_var_len(ip, v, i.args[2]):
                    i = NONE
                for ga, a in leaves(as_sum, gi):
                    nch, v1, i1, a1, g1, f1 = canon(ch, v, i, a, ga, factor)
                    k = (nch, v1, i1, a1)
                    coef[k] = add(coef.get(k, ZERO), ite(g1, f1, ZERO))
    k0 = ZERO
    pc = ip.content(c.attrs['parts_of_constant'])
    if m:
        pc = subst(pc, m)
    for s in pc.args[0] if pc.op == 'seq' else ():
        ch, g, v = s.args
        term = ite(fz(g), fz(v), ZERO)
        k0 = add(k0, en.sum_over(ch, term) if ch else term)
    keys = sorted(coef, key=lambda k: tm._akey(k))

    obj = FALSE
    if 'is_objective' in c.attrs:
        obj = fz(c.attrs['is_objective'])

    def build(o, k, *cs):
        ent = [(key, cf) for key, cf in zip(keys, cs) if cf is not ZERO]
        if kind == 'eq' and o is FALSE:
            lead = ent[0][1] if ent else k
            p = tm._poly_of(lead)
            items = sorted(p.items(), key=lambda mc: [(y.key, e) for y, e in mc[0]])
            if items and items[0][1] < 0:
                ent = [(key, neg(cf)) for key, cf in ent]
                k = neg(k)
        return mk('row', kind, o, k, tuple(mk('coef', key[0], key[1], key[2], key[3], cf) for key, cf in ent))

    return lift(None, build, en._quote(obj), k0, *[coef[k] for k in keys])


def _is_var_len(ip, v, n):
    """is n the length of variable v (declared here) or the number of time steps of an unknown variable"""
    if v.op == 'var':
        for kind, ch, g, t, o, w in ip.emits:
            if kind == 'variable' and t.op == 'obj' and mk('var', Freezer(ip)(ip.cell(t).attrs['label'])) is v:
                return ip.cell(t).attrs['length'] is n
        return True
    return True


def show_row(r):
    if r.op != 'row':
        return show(r)
    kind, obj, k, cs = r.args
    parts = []
    for c in cs:
        ch, v, i, a, cf = c.args
        s = f'{show(cf)} * {show(v)}'
        if i is not NONE:
            s += f'[{show(i)}]'
        if a is TRUE:
            s = f'SUM({s})'
        if ch:
            s += ' over ' + ', '.join(show(b) for b in ch)
        parts.append(s)
    return ' + '.join(parts or ['0']) + (' == ' if kind == 'eq' else ' <= ') + show(k)


def effect_map(ip, select=None, ordered=False):
    """{(chain, term): [guards]} of calls and writes that leave the analysed code"""
    fz = Freezer(ip)
    out, where, order = {}, {}, []
    for chain, guard, t, w in ip.effects:
        for g, l in leaves(fz(t), fz(guard)):
            if select is not None and not select(l):
                continue
            if g is FALSE:
                continue
            ch, t1, g1 = canon(chain, l, g)
            key = ('effect', ch, t1)
            out.setdefault(key, []).append(g1)
            where.setdefault(key, w)
            order.append((key, g1))
    # the same effect under disjoint guards is one effect
    res = {}
    for k, gs in out.items():
        tot, extra = FALSE, []
        for g in gs:
            if and_(tot, g) is FALSE:
                tot = or_(tot, g)
            else:
                extra.append(g)
        res[k] = (tot, tuple(sorted(extra)))
    return res, where, order


def raise_map(ip):
    fz = Freezer(ip)
    out, where = {}, {}
    for chain, guard, t, w in ip.raises:
        g = fz(guard)
        for lg, l in leaves(fz(t), g):
            e = exists(chain, lg) if chain else lg
            k = ('raise', show(l))
            out[k] = or_(out.get(k, FALSE), e)
            where.setdefault(k, w)
    return out, where
