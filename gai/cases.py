"""Equality of two diagrams by cases: what a condition says about the values is put into them before they are compared.

Used when two normal forms are not identical: under `a == b` the one may mention a and the other b, and a list may be
built by a conditional append in one place and by a conditional expression in another.
"""

from . import terms as tm
from .engine import seq
from .terms import FALSE, NONE, TRUE, T, add, app, atom, const, inv, ite, mk, mul, neg, subst

LIMIT = 4000


class _Budget(Exception):
    pass


def equal(x, y):
    """True if x and y agree in every case (False: not shown)"""
    budget = [LIMIT]
    try:
        return _equal(x, y, budget)
    except _Budget:
        return False


def _equal(x, y, budget):
    if x is y:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        raise _Budget
    p = _pick(x, y)
    if p is None:
        return False
    for val in (True, False):
        m = _solve(p) if val else None
        u, v = (assign(t, p, val) for t in (x, y))
        if m:
            u, v = (subst(t, m) for t in (u, v))
        if not _equal(u, v, budget):
            return False
    return True


def _pick(x, y):
    """the next condition to decide: of the diagrams themselves, then of the entries of their values"""
    p = tm._top(x, y)
    if p is not None:
        # equations first: they change what the other conditions say
        ats = tm.atoms_of(x) | tm.atoms_of(y)
        eqs = [a for a in ats if _solve(a)]
        return min(eqs, key=lambda a: a.key) if eqs else p
    ats = set()
    for t in (x, y):
        _gates(t, ats, set())
    return min(ats, key=lambda a: a.key) if ats else None


def _gates(t, out, seen):
    if isinstance(t, tuple):
        for a in t:
            _gates(a, out, seen)
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    if t.op == 'ite':
        out |= {a for a in tm.atoms_of(t) if not a.fv}
    for a in t.args:
        _gates(a, out, seen)


def _solve(a):
    """the substitution that an equation stands for"""
    if a.op != 'app':
        return None
    if a.args[0] == 'isnone':
        return {a.args[1]: NONE} if a.args[1].op not in ('const', 'num') else None
    if a.args[0] == 'eq':
        u, v = a.args[1], a.args[2]
        for l, r in ((u, v), (v, u)):
            if r.op in ('const', 'num') and l.op in ('sym', 'attr', 'app'):
                return {l: r}
        return None
    if a.args[0] == 'eq0':
        p = tm._poly_of(a.args[1])
        best = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and not m[0][0].fv:
                x = m[0][0]
                if sum(1 for m2 in p for y, e in m2 if y is x) == 1 and (best is None or x.key > best[0].key):
                    best = (x, c, m)
        if best is None:
            return None
        x, c, m = best
        rest = tm._mk_poly({k: v / -c for k, v in p.items() if k != m})
        if any(y is x for y in _sub(rest)):
            return None
        return {x: rest}
    return None


def _sub(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            todo += x.args


def assign(t, p, val):
    """t where condition p is known, inside its values too"""
    memo = {}

    def s(x):
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        if not isinstance(x, T) or not x.args:
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'ite' and x.args[0] is p:
                r = s(x.args[1] if val else x.args[2])
            else:
                r = tm.rebuild(x, s)
                if r.op == 'seq':
                    r = mk('seq', tuple(g for g in r.args[0] if g.op != 'seg' or g.args[1] is not FALSE))
                elif r.op == 'dct' and all(g.op == 'seg' for g in r.args[0]):
                    r = mk('dct', tuple(g for g in r.args[0] if g.args[1] is not FALSE))
            memo[x] = r
        return r

    return s(t)
