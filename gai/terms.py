"""Hash-consed terms, decision diagrams (gates) and the arithmetic normal form.

A value is a term.  A term whose top operator is 'ite' is a decision diagram over boolean atoms, ordered by
the atom key, reduced and shared, so two values that are equal under the same conditions are the same node.
Nothing here is executed and nothing is handed to a solver: equality is identity of normal forms.
"""

import hashlib
from fractions import Fraction

_table = {}


class T:
    __slots__ = ('op', 'args', 'key', 'fv', '_h')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.key < other.key


def _akey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_akey(x) for x in a) + ')'
    return type(a).__name__ + ':' + repr(a)


_EMPTY = frozenset()


def _afv(a):
    if isinstance(a, T):
        return a.fv
    if isinstance(a, tuple):
        r = _EMPTY
        for x in a:
            r = r | _afv(x)
        return r
    return _EMPTY


def mk(op, *args):
    ident = (op, args)
    t = _table.get(ident)
    if t is not None and all(type(x) is type(y) for x, y in zip(t.args, args)):
        return t
    if t is not None:  # 1 == True == Fraction(1): separate entry
        ident = (op, args, tuple(type(x).__name__ for x in args))
        t = _table.get(ident)
        if t is not None:
            return t
    t = T.__new__(T)
    t.op, t.args = op, args
    t.key = hashlib.sha1((op + '|' + '|'.join(_akey(a) for a in args)).encode()).hexdigest()[:20]
    fv = _EMPTY
    for a in args:
        fv = fv | _afv(a)
    if op in ('bv', 'phi', 'lamv'):
        fv = fv | {t}
    elif op in ('seg',):
        fv = fv - frozenset(args[0])
    elif op in ('sum', 'exists', 'first', 'last', 'fold', 'lam'):
        b = args[0]
        fv = fv - frozenset(b if isinstance(b, tuple) else (b,))
    t.fv = fv
    _table[ident] = t
    return t


# ----------------------------------------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk('const', v)
    if isinstance(v, int):
        return mk('num', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', repr(v))
        return mk('num', Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk('num', v)
    raise TypeError(v)


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO, ONE, MINUS1 = const(0), const(1), const(-1)
UNDEF = mk('undef')


def is_num(t):
    return t.op == 'num' or t is TRUE or t is FALSE


def num_of(t):
    if t is TRUE:
        return Fraction(1)
    if t is FALSE:
        return Fraction(0)
    return t.args[0]


def sym(name, typ=None):
    return mk('sym', name, typ)


def app(f, *args):
    if f == 'get' and args[1].op == 'app' and args[1].args[0] == 'keyof' and args[1].args[1] is args[0]:
        return args[1].args[2]
    return mk('app', f, *args)


# -------------------------------------------------------------------------------------------------- gates
_ite_memo = {}


def _top(*ts):
    best = None
    for t in ts:
        if t.op == 'ite' and (best is None or t.args[0].key < best.key):
            best = t.args[0]
    return best


def cof(t, atom, val):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    """c: boolean diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        c = atom(c)
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    p = _top(c, a, b)
    hi = ite(cof(c, p, True), cof(a, p, True), cof(b, p, True))
    lo = ite(cof(c, p, False), cof(a, p, False), cof(b, p, False))
    r = hi if hi is lo else _node(p, hi, lo)
    _ite_memo[k] = r
    return r


_AMOUNTS = ('poly', 'num', 'sym', 'attr', 'app', 'bv', 'sum')


def _node(p, hi, lo):
    """a choice; the smaller or greater one of two amounts is the same however it is chosen"""
    if p.op == 'app' and p.args[0] == 'lt0' and hi.op in _AMOUNTS and lo.op in _AMOUNTS:
        d = _add2(hi, _mul2(MINUS1, lo))
        if d.op != 'num':
            if _norm_sign(d, False)[0] is p.args[1]:
                return MINMAX['min']([hi, lo])
            if _norm_sign(_mul2(MINUS1, d), False)[0] is p.args[1]:
                return MINMAX['max']([hi, lo])
    return mk('ite', p, hi, lo)


MINMAX = {}  # set by the machine


def atom(t):
    """boolean term -> diagram"""
    if t is TRUE or t is FALSE or t.op == 'ite':
        return t
    return mk('ite', t, TRUE, FALSE)


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(c, r, FALSE) if r is not TRUE else (c if c in (TRUE, FALSE) or c.op == 'ite' else atom(c))
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(c, TRUE, r)
    return r


_lift_memo = {}


def lift(name, f, *args):
    """apply f to the leaves of all argument diagrams"""
    if _top(*args) is None:
        return f(*args)
    memo = {} if name is None else _lift_memo.setdefault(name, {})

    def go(args):
        p = _top(*args)
        if p is None:
            return f(*args)
        r = memo.get(args)
        if r is None:
            hi = go(tuple([cof(a, p, True) for a in args]))
            lo = go(tuple([cof(a, p, False) for a in args]))
            r = mk_ite(p, hi, lo)
            memo[args] = r
        return r

    return go(args)


_mention_memo = {}


def _mentions(t, x):
    """x occurs in t"""
    if t is x:
        return True
    if isinstance(t, tuple):
        return any(_mentions(y, x) for y in t)
    if not isinstance(t, T):
        return False
    k = (t, x)
    r = _mention_memo.get(k)
    if r is None:
        r = _mention_memo[k] = any(_mentions(y, x) for y in t.args if isinstance(y, (T, tuple)))
    return r


def mk_ite(p, hi, lo):
    if hi is lo:
        return hi
    if p.op == 'app' and p.args[0] == 'truthy':
        n = app('len', p.args[1])
        if _mentions(hi, n) and subst(hi, {n: ZERO}) is lo:
            return hi  # an empty collection has length zero
    t1, t2 = _top(hi), _top(lo)
    if (t1 is None or t1.key > p.key) and (t2 is None or t2.key > p.key):
        return _node(p, hi, lo)
    return ite(atom(p), hi, lo)


_restrict_memo = {}


def restrict(v, care):
    """simplify v where only the paths of care matter"""
    if care is TRUE or v.op != 'ite':
        return v
    if care is FALSE:
        return v
    k = (v, care)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    p = _top(v, care)
    ch, cl = cof(care, p, True), cof(care, p, False)
    if v.args[0] is not p:  # p only in care
        r = restrict(v, or_(ch, cl))
    elif ch is FALSE:
        r = restrict(cof(v, p, False), cl)
    elif cl is FALSE:
        r = restrict(cof(v, p, True), ch)
    else:
        r = mk_ite(p, restrict(cof(v, p, True), ch), restrict(cof(v, p, False), cl))
    _restrict_memo[k] = r
    return r


def leaves(v, guard=TRUE):
    """[(guard, leaf)]"""
    out = {}

    def walk(t, g):
        if g is FALSE:
            return
        if t.op == 'ite':
            a = atom(t.args[0])
            walk(t.args[1], and_(g, a))
            walk(t.args[2], and_(g, not_(a)))
        else:
            out[t] = or_(out[t], g) if t in out else g

    walk(v, guard)
    return [(g, t) for t, g in out.items()]


def atoms_of(v, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def walk(t):
        if t in seen or t.op != 'ite':
            return
        seen.add(t)
        acc.add(t.args[0])
        walk(t.args[1])
        walk(t.args[2])

    walk(v)
    return acc


# --------------------------------------------------------------------------------------------- arithmetic
def _poly_of(t):
    """dict monomial(tuple of (T,exp)) -> Fraction"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mk_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: [(x.key, e) for x, e in mc[0]]))
    return mk('poly', items)


def _add2(a, b):
    d = _poly_of(a)
    for m, c in _poly_of(b).items():
        d[m] = d.get(m, 0) + c
    return _mk_poly(d)


def _mulm(m1, m2):
    e = {}
    for x, k in m1 + m2:
        e[x] = e.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in e.items() if k), key=lambda p: p[0].key))


def _mul2(a, b):
    d = {}
    pa, pb = _poly_of(a), _poly_of(b)
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _mk_poly(d)


def add(a, b):
    return lift('add', _add2, a, b)


def mul(a, b):
    return lift('mul', _mul2, a, b)


def neg(a):
    return mul(MINUS1, a)


def sub(a, b):
    return add(a, neg(b))


def _inv(a):
    p = _poly_of(a)
    if not p:
        return app('div0')
    if len(p) == 1:
        (m, c), = p.items()
        return _mk_poly({tuple((x, -k) for x, k in m): 1 / c})
    lead = sorted(p.items(), key=lambda mc: [(x.key, e) for x, e in mc[0]])[0][1]
    q = _mk_poly({m: c / lead for m, c in p.items()})
    return _mul2(const(1 / lead), mk('poly', ((((q, -1),), Fraction(1)),)))


def inv(a):
    return lift('inv', _inv, a)


def div(a, b):
    return mul(a, inv(b))


def _norm_sign(t, allow_neg):
    """scale polynomial so that the leading coefficient is +-1; returns (poly, negated)"""
    p = _poly_of(t)
    items = sorted(p.items(), key=lambda mc: [(x.key, e) for x, e in mc[0]])
    # leading: first non-constant monomial
    lead = next((c for m, c in items if m), items[0][1])
    s = abs(lead)
    neg_ = lead < 0 and allow_neg
    if neg_:
        s = -s
    return _mk_poly({m: c / s for m, c in p.items()}), lead < 0


def _lt0(t):
    if t.op == 'num':
        return TRUE if t.args[0] < 0 else FALSE
    p = _poly_of(t)
    # len(x) tests -> truthiness of x
    nonconst = [m for m in p if m]
    if len(nonconst) == 1 and len(nonconst[0]) == 1 and nonconst[0][0][1] == 1:
        x = nonconst[0][0][0]
        if x.op == 'app' and x.args[0] == 'len':
            a, b = p[nonconst[0]], p.get((), Fraction(0))
            # a*len + b < 0
            if a < 0:  # len > b/-a
                thr = b / -a
                if 0 <= thr < 1:
                    return atom(app('truthy', x.args[1]))
                if thr < 0:
                    return TRUE
            else:  # len < -b/a
                thr = -b / a
                if 0 < thr <= 1:
                    return not_(atom(app('truthy', x.args[1])))
                if thr <= 0:
                    return FALSE
    q, lead_neg = _norm_sign(t, False)
    return atom(app('lt0', q))


def lt(a, b):
    return lift('lt', lambda x, y: _lt0(_add2(x, _mul2(MINUS1, y))), a, b)


def le(a, b):
    return not_(lt(b, a))


def _numlike(t):
    return t.op in ('num', 'poly') or t is TRUE or t is FALSE


ARRAYS = {'ext:np.concatenate', 'ext:np.append', 'ext:np.zeros', 'ext:np.ones', 'ext:np.full', 'ext:np.arange', 'ext:np.array',
          'ext:np.tile', 'ext:np.repeat'}  # calls that return an array
KIND = {}  # parameters of references declared as exactly an array, a scalar, a text, a dict or a list
GIVEN = set()  # parameters of references that are declared as given (not Optional)
NEVER_NONE = {'active_data', 'active_data_vector'}  # a time series that exists holds data


def _eq2(a, b):
    if a is b:
        return TRUE
    ca, cb = a.op in ('const', 'num'), b.op in ('const', 'num')
    if ca and cb:
        if is_num(a) and is_num(b):
            return TRUE if num_of(a) == num_of(b) else FALSE
        return TRUE if a is b else FALSE
    idn = ('obj', 'cls', 'fn', 'closure')
    if a.op in idn and b.op in idn:
        return TRUE if a is b else (FALSE if not (a.fv or b.fv) else atom(app('eq', *sorted((a, b)))))
    if (a is NONE and b.op in idn) or (b is NONE and a.op in idn):
        return FALSE
    if a is NONE or b is NONE:
        x = a if b is NONE else b
        if x.op == 'attr' and x.args[1] in NEVER_NONE or x in GIVEN or x.op == 'app' and x.args[0] in ARRAYS:
            return FALSE
        return atom(app('isnone', x))
    if a.op in ('const', 'fmt') or b.op in ('const', 'fmt') or a.op in idn or b.op in idn:
        if not ((a in (TRUE, FALSE)) or (b in (TRUE, FALSE))):
            return atom(app('eq', *sorted((a, b))))
    if a.op in ('seq', 'dct') or b.op in ('seq', 'dct'):
        return atom(app('eq', *sorted((a, b))))
    d = _add2(a, _mul2(MINUS1, b))
    if d.op == 'num':
        return TRUE if d.args[0] == 0 else FALSE
    p = _poly_of(d)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'len':
            return not_(atom(app('truthy', m[0][0].args[1])))
    q, _ = _norm_sign(d, True)
    return atom(app('eq0', q))


def eq(a, b):
    return lift('eq', _eq2, a, b)


# ------------------------------------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """capture-free structural substitution of terms (bvs, phis, syms) by terms; renormalises"""
    if not m:
        return t
    keys = frozenset(m)
    memo = {} if memo is None else memo

    def s(x):
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if not (x.fv & keys) and not any(k.op not in ('bv', 'phi', 'lamv') for k in keys):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, s)
            memo[x] = r
        return r

    return s(t)


def rebuild(x, s):
    if x.op == 'ite':
        c = s(x.args[0])
        return ite(c if c.op == 'ite' or c in (TRUE, FALSE) else atom(c), s(x.args[1]), s(x.args[2]))
    if x.op == 'poly':
        tot = ZERO
        for mono, c in x.args[0]:
            term = const(c)
            for y, e in mono:
                z = s(y)
                for _ in range(abs(e)):
                    term = mul(term, z if e > 0 else inv(z))
            tot = add(tot, term)
        return tot
    if x.op == 'obj':
        cell, pairs = x.args
        return mk('obj', cell, tuple((k, s(v)) for k, v in pairs))
    if x.op == 'app' and x.args[0] in ('lt0', 'eq0'):
        v = s(x.args[1])
        return lt(v, ZERO) if x.args[0] == 'lt0' else eq(v, ZERO)
    args = tuple(s(a) for a in x.args)
    hook = REBUILD.get((x.op, x.args[0] if x.args and isinstance(x.args[0], str) else None)) or REBUILD.get((x.op, None))
    if hook:
        return hook(*args)
    return mk(x.op, *args)


REBUILD = {}  # (op, name) -> constructor used when rebuilding after substitution


# ------------------------------------------------------------------------------------------------ display
def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return '...'
    d = depth + 1
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[0])
    if o == 'num':
        f = a[0]
        return str(f) if f.denominator == 1 or f.denominator > 10**6 else str(float(f))
    if o == 'sym':
        return a[0]
    if o == 'attr':
        return f'{show(a[0], d)}.{a[1]}'
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d)
        if a[1] is FALSE and a[2] is TRUE:
            return 'not ' + show(a[0], d)
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if o == 'poly':
        parts = []
        for m, c in a[0]:
            fs = []
            for x, e in m:
                fs.append(show(x, d) + (f'^{e}' if e != 1 else ''))
            if c != 1 or not fs:
                fs.insert(0, str(c) if c.denominator < 10**6 else str(float(c)))
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if o == 'app':
        return f'{a[0]}(' + ', '.join(show(x, d) for x in a[1:]) + ')'
    if o == 'bv':
        return f'each{a[0]}<{show(a[1], d)}>'
    if o == 'seq':
        return '[' + ', '.join(show(x, d) for x in a[0]) + ']'
    if o == 'seg':
        s = show(a[2], d)
        if a[0]:
            s = '*' + s + ' for ' + ','.join(show(b, d) for b in a[0])
        if a[1] is not TRUE:
            s += ' when ' + show(a[1], d)
        return s
    if o == 'fmt':
        return 'f"' + ''.join(p if isinstance(p, str) else '{' + show(p, d) + '}' for p in a[0]) + '"'
    if o == 'obj':
        return f'<obj {a[0]}>' if not a[1] else f'<obj {a[0]} {show(a[1], d)}>'
    return f'{o}(' + ', '.join(show(x, d) for x in a) + ')'
