"""What the interpreter knows about Python's containers, strings and the math-model vocabulary of the package."""

import builtins

from . import terms as tm
from . import engine as en
from .terms import (FALSE, NONE, ONE, TRUE, UNDEF, ZERO, T, add, and_, app, atom, const, eq, is_num, ite, leaves, lift,
                    mk, not_, num_of, or_, restrict, sub, subst)

_PYBUILTINS = set(dir(builtins)) | {'VAR', 'EQ', 'LE', 'TERM', 'RHS', 'ASSUME', 'UNORDERED', 'BAG', 'SAYS', 'ANY', 'OPAQUE',
                                    'ROLE', 'SYM', 'CALL', 'NOTE'}
BUILTINS = set()


# ---------------------------------------------------------------------------------------------------- dict
def entries(ip, d, every=False):
    """[(chain, guard, key, val)] of a dict leaf; every: also those that a later one with the same key replaces"""
    if d.op == 'obj':
        c = ip.cell(d)
        if c.kind == 'inst':
            d2 = None
        else:
            d2 = ip.content(d)
    elif d.op in ('dct', 'ite'):
        d2 = d
    else:
        st = ip.symstore.get((d, '[]'))
        d2 = None
        if st is not None:
            base = [(s[0], s[1], s[2], app('get', d, s[2])) for s in _symkeys(ip, d)]
            return base + _dct_entries(ip, st, every)
    if d2 is None:
        return [(ch, g, k, app('get', d, k)) for ch, g, k in _symkeys(ip, d)]
    if d2.op == 'ite':
        out = []
        for g, leaf in leaves(d2):
            for ch, gg, k, v in _dct_entries(ip, leaf, every) if leaf.op == 'dct' else entries(ip, leaf, every):
                out.append((ch, and_(g, gg), k, v))
        # merge entries with the same key and chain
        res, pos = [], {}
        for ch, g, k, v in out:
            kk = (ch, k)
            if kk in pos:
                i = pos[kk]
                _, g0, _, v0 = res[i]
                res[i] = (ch, or_(g0, g), k, ite(g, v, v0))
            else:
                pos[kk] = len(res)
                res.append((ch, g, k, v))
        return res
    return _dct_entries(ip, d2, every)


def _symkeys(ip, d):
    v = en.bv(len(ip.chain), app('keys', d))
    return [((v,), TRUE, v)]


def _dct_entries(ip, d, every=False):
    if d.op != 'dct':
        return [(ch, g, k, app('get', d, k)) for ch, g, k in _symkeys(ip, d)]
    out = []
    for s in d.args[0]:
        ch, g, pr = ip._seg3(s)
        if pr.op == 'pair':
            k, v = pr.args
            if ch and not every and not one_to_one(ip, ch, k):
                g = and_(g, atom(app('lastkey', k, v)))
            if not ch:
                hit = next((i for i, e in enumerate(out) if not e[0] and e[2] is k), None)
                if hit is not None:
                    _, g0, _, v0 = out[hit]
                    out[hit] = ((), or_(g0, g), k, ite(g, v, v0))
                    continue
            out.append((ch, g, k, v))
        else:  # carried entries of a loop
            out.append((ch, g, app('keyof', pr), app('valof', pr)))
    return out


def one_to_one(ip, ch, k):
    """different elements of the chain have different keys: keys of a dict, elements told apart by their label"""
    if k.op == 'ite':  # (the label of a flow differs with the presence of its component)
        return all(one_to_one(ip, ch, x) for _, x in leaves(k))
    if k.op == 'fmt':
        return any(isinstance(x, T) and x.op == 'attr' and one_to_one(ip, ch[-1:], x) for x in tm_parts(k))
    if k.op == 'attr' and k.args[1] in LABELS:
        x = k.args[0]
        if ip.type_of(x) is None and k.args[1] != 'label_short':
            return False
        if len(ch) > 1 and k.args[1] == 'label':
            return False
        k = x
    if k.op == 'app' and k.args[0] == 'get':
        k = k.args[2]
    if k.op == 'obj':
        return ch[-1] in k.args[1] or any(ch[-1] in (a if isinstance(a, tuple) else ()) for a in k.args[1])
    return k in ch


LABELS = ('label', 'label_full', 'label_short')


def tm_parts(t):
    for a in t.args:
        if isinstance(a, tuple):
            yield from (x for x in a if isinstance(x, T))
        elif isinstance(a, T):
            yield a


def dict_set(ip, d, key, val, node=None):
    """d[key] = val on a dict leaf"""
    if key.op == 'ite' and any(x.op == 'const' for _, x in leaves(key)):
        ip.dispatch(key, lambda k: (dict_set(ip, d, k, val, node), NONE)[1])
        return
    if d.op == 'obj' and ip.cell(d).kind == 'dict':
        c = ip.cell(d)
        live = restrict(ip.live, c.live0)
        m = ip.rmap(d)
        if m:
            live = ip._inverse(live, m)
            key, val = ip._inverse(key, m), ip._inverse(val, m)
            ip.wlog.append((c.id, '[]', tuple(v for _, v in d.args[1])))
        else:
            ip.wlog.append((c.id, '[]', tuple(v for _, v in d.args[1])))
        cont = c.content
        c.content = put(cont, live, key, val)
        return
    cur = ip.symstore.get((d, '[]'), en.dct(()))
    ip.symstore[(d, '[]')] = put(cur, ip.live, key, val)
    ip.effect(app('setitem', d, key, en._quote(val)), node)


def put(cont, live, key, val):
    if cont.op == 'ite':
        return lift(None, lambda x: put(x, live, key, val), cont)
    if cont.op != 'dct':
        return app('setitem', cont, key, val)
    segs = list(cont.args[0])
    for i, s in enumerate(segs):
        if s.op == 'seg' and not s.args[0] and s.args[2].op == 'pair' and s.args[2].args[0] is key:
            g0, v0 = s.args[1], s.args[2].args[1]
            segs[i] = en.ent((), or_(g0, live), key, ite(live, val, v0))
            return en.dct(segs)
    segs.append(en.ent((), live, key, val))
    return en.dct(segs)


def _d_keys(ip, r, pos, kw, node):
    return ip.mkseq([(ch, g, k) for ch, g, k, v in entries(ip, r)]) if r.op in ('obj', 'dct') else app('keys', r)


def _d_values(ip, r, pos, kw, node):
    return ip.mkseq([(ch, g, v) for ch, g, k, v in entries(ip, r)])


def _d_items(ip, r, pos, kw, node):
    return ip.mkseq([(ch, g, pair2(k, v)) for ch, g, k, v in entries(ip, r)])


def pair2(a, b):
    return en.seq([en.seg((), TRUE, a), en.seg((), TRUE, b)])


def _d_get(ip, r, pos, kw, node):
    default = pos[1] if len(pos) > 1 else kw.get('default', NONE)
    d = ip.content(r) if r.op == 'obj' else r
    got = None
    if d.op in ('dct', 'ite') and pos[0].op != 'ite':
        got = ip.dict_get(d, pos[0], default)
    if got is not None:
        return got
    key = pos[0]
    if key.op == 'ite':
        return ip.dispatch(key, lambda k: _d_get(ip, r, [k] + list(pos[1:]), kw, node))
    return ite(ip.contains(r, key), ip.index(r, key), default)


def _d_copy(ip, r, pos, kw, node):
    return ip.new_dict([en.ent(ch, g, k, v) for ch, g, k, v in entries(ip, r, every=True)], node)


def _d_update(ip, r, pos, kw, node):
    if not (r.op == 'obj' and ip.cell(r).kind == 'dict'):
        return None
    for p in pos:
        for g0, leaf in leaves(p):
            for ch, g, k, v in entries(ip, leaf, every=True):
                _put_seg(ip, r, ch, and_(g, g0), k, v)
    for k, v in kw.items():
        _put_seg(ip, r, (), TRUE, const(k), v)
    return NONE


def _put_seg(ip, r, ch, g, k, v):
    c = ip.cell(r)
    if not ch:
        saved = ip.live
        ip.live = and_(ip.live, g)
        if ip.live is not FALSE:
            dict_set(ip, r, k, v)
        ip.live = saved
        return
    live = restrict(ip.live, c.live0)
    cont = c.content
    s = en.ent(ch, and_(live, g), k, v)
    ip.set_content(r, en.dct(tuple(cont.args[0]) + (s,)) if cont.op == 'dct' else app('merged', cont, s))


def _d_pop(ip, r, pos, kw, node):
    if r.op == 'obj':
        c = ip.cell(r)
        val = ip.dict_get(ip.content(r), pos[0], pos[1] if len(pos) > 1 else None)
        if val is None:
            val = app('get', ip.content(r), pos[0])
        if c.content.op == 'dct' and pos[0].op != 'ite':
            live = restrict(ip.live, c.live0)
            segs = []
            for s in c.content.args[0]:
                if s.op == 'seg' and s.args[2].op == 'pair':
                    segs.append(en.ent(s.args[0], and_(s.args[1], not_(and_(live, eq(s.args[2].args[0], pos[0])))), *s.args[2].args))
                else:
                    segs.append(s)
            ip.set_content(r, en.dct(segs))
        else:
            ip.set_content(r, app('popped', c.content, pos[0]))
        return val
    res = app('get', r, pos[0]) if len(pos) < 2 else ite(ip.contains(r, pos[0]), app('get', r, pos[0]), pos[1])
    ip.effect(app('m:pop', r, pos[0]), node)
    return res


def _d_setdefault(ip, r, pos, kw, node):
    if pos[0].op == 'ite':
        return None
    d = pos[1] if len(pos) > 1 else NONE
    has = ip.contains(r, pos[0])
    saved = ip.live
    ip.live = and_(saved, not_(has))
    if ip.live is not FALSE:
        dict_set(ip, r, pos[0], d, node)
    ip.live = saved
    return ip.index(r, pos[0])


def _clear(empty):
    def f(ip, r, pos, kw, node):
        if r.op != 'obj':
            return None
        c = ip.cell(r)
        live = restrict(ip.live, c.live0)
        ip.set_content(r, ite(live, empty, c.content))
        return NONE
    return f


DICT_METHODS = {
    'keys': _d_keys, 'values': _d_values, 'items': _d_items, 'get': _d_get, 'copy': _d_copy, 'update': _d_update,
    'pop': _d_pop, 'setdefault': _d_setdefault, 'clear': _clear(en.dct(())),
}


# --------------------------------------------------------------------------------------------------- lists
def _append_segs(ip, r, segs):
    if r.op != 'obj':
        return None
    c = ip.cell(r)
    m = ip.rmap(r)
    live = restrict(ip.live, c.live0)
    new = [en.seg(ch, and_(live, g), e) for ch, g, e in segs]
    if m:
        new = [ip._inverse(s, m) for s in new]
    ip.wlog.append((c.id, '[]', tuple(v for _, v in r.args[1])))
    new = [s for s in new if s.args[1] is not FALSE]
    if c.content.op == 'seq':
        c.content = en.seq(tuple(c.content.args[0]) + tuple(new))
    else:
        c.content = app('concat', c.content, en.seq(new))
    return NONE


def _l_append(ip, r, pos, kw, node):
    return _append_segs(ip, r, [((), TRUE, pos[0])])


def _s_add(ip, r, pos, kw, node):
    return _append_segs(ip, r, [((), TRUE, pos[0])])


def _l_extend(ip, r, pos, kw, node):
    if r.op != 'obj':
        return None
    out = []
    for g, leaf in leaves(pos[0]):
        for ch, gg, e in ip.segs_of(leaf):
            out.append((ch, and_(g, gg), e))
    return _append_segs(ip, r, out)


def _l_copy(ip, r, pos, kw, node):
    return ip.new_list([en.seg(*s) for s in ip.segs_of(r)], node, ip.cell(r).kind if r.op == 'obj' else 'list')


def _l_insert(ip, r, pos, kw, node):
    if r.op != 'obj' or ip.cell(r).content.op != 'seq' or pos[0] is not ZERO:
        return None
    c = ip.cell(r)
    live = restrict(ip.live, c.live0)
    ip.set_content(r, en.seq((en.seg((), live, pos[1]),) + tuple(c.content.args[0])))
    return NONE


def _l_pop(ip, r, pos, kw, node):
    if r.op != 'obj':
        return None
    i = pos[0] if pos else const(-1)
    v = ip.index(r, i)
    c = ip.cell(r)
    segs = c.content.args[0] if c.content.op == 'seq' else ()
    if c.content.op == 'seq' and is_num(i) and all(s.op == 'seg' and not s.args[0] and s.args[1] is TRUE for s in segs):
        live = restrict(ip.live, c.live0)
        k = int(num_of(i)) % max(len(segs), 1)
        segs = [en.seg((), not_(live), s.args[2]) if j == k else s for j, s in enumerate(segs)]
        ip.set_content(r, en.seq([s for s in segs if s.args[1] is not FALSE]))
    else:
        ip.set_content(r, app('popped', c.content, i))
    return v


def _l_index(ip, r, pos, kw, node):
    x = pos[0]
    d = ip.domain(r)
    if x.op == 'bv' and x.args[1] is d:
        return ip.idx(x)
    return None


def _union(ip, r, pos, kw, node):
    out = list(ip.segs_of(r))
    for p in pos:
        out += ip.segs_of(p)
    return ip.new_list([en.seg(*s) for s in out], node, 'set')


def _l_sort(ip, r, pos, kw, node):
    if r.op != 'obj':
        return None
    c = ip.cell(r)
    key = kw.get('key', NONE)
    s = en.seq([en.seg((en.bv(0, app('sorted', c.content, ip.ext_arg(key), kw.get('reverse', FALSE))),), TRUE,
                       en.bv(0, app('sorted', c.content, ip.ext_arg(key), kw.get('reverse', FALSE))))])
    ip.set_content(r, ite(restrict(ip.live, c.live0), s, c.content))
    return NONE


LIST_METHODS = {
    'append': _l_append, 'extend': _l_extend, 'copy': _l_copy, 'insert': _l_insert, 'pop': _l_pop, 'index': _l_index,
    'add': _s_add, 'update': _l_extend, 'union': _union, 'clear': _clear(en.seq(())), 'sort': _l_sort,
}


# ------------------------------------------------------------------------------------------------- strings
def fmt(parts):
    """normal form of a string built from pieces (str or term)"""
    out = []

    def push(p):
        if isinstance(p, T):
            if p.op == 'const' and isinstance(p.args[0], str):
                p = p.args[0]
            elif p.op == 'fmt':
                for q in p.args[0]:
                    push(q)
                return
            elif p.op == 'num' and p.args[0].denominator == 1:
                p = str(p.args[0])
            elif p is NONE or p is TRUE or p is FALSE:
                p = str(p.args[0])
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)

    for p in parts:
        push(p)
    if not out:
        return const('')
    if len(out) == 1 and isinstance(out[0], str):
        return const(out[0])
    return mk('fmt', tuple(out))


def fmt_lifted(ip, parts):
    terms = [p for p in parts if isinstance(p, T)]

    def build(*vals):
        it = iter(vals)
        return fmt([next(it) if isinstance(p, T) else p for p in parts])

    return lift(None, build, *[en._quote(t) for t in terms])


def as_text(ip, t):
    """is the term surely a string"""
    if t.op == 'fmt' or (t.op == 'const' and isinstance(t.args[0], str)):
        return True
    return ip.type_of(t) == 'str'


def _str_const(name):
    def f(ip, r, pos, kw, node):
        if r.op == 'const' and all(p.op == 'const' and isinstance(p.args[0], str) or is_num(p) for p in pos) and not kw:
            try:
                v = getattr(r.args[0], name)(*[int(num_of(p)) if is_num(p) else p.args[0] for p in pos])
            except Exception:
                return None
            if isinstance(v, (str, bool)):
                return const(v)
            if isinstance(v, int):
                return const(v)
            if isinstance(v, list):
                return ip.new_list([en.seg((), TRUE, const(x)) for x in v])
        if r.op == 'fmt' and name == 'startswith' and pos and pos[0].op == 'const' and isinstance(r.args[0][0], str):
            if len(r.args[0][0]) >= len(pos[0].args[0]):
                return const(r.args[0][0].startswith(pos[0].args[0]))
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
            return atom(app('m:' + name, r, *pos))
        return None
    return f


def _join(ip, r, pos, kw, node):
    x = pos[0]
    if x.op == 'ite':
        got = [_join(ip, r, [y], kw, node) for _, y in en.leaves(x)]
        if any(g is None for g in got):
            return None
        return lift(None, lambda y: _join(ip, r, [y], kw, node), x)
    segs = ip.segs_of(x)
    if segs is not None and all(not ch and g is TRUE for ch, g, e in segs):
        parts = []
        for i, (_, _, e) in enumerate(segs):
            if i:
                parts.append(r)
            parts.append(e)
        return fmt_lifted(ip, parts) if parts else const('')
    if segs is not None:
        return app('join', r, ip.mkseq(segs))
    return None


def _s_format(ip, r, pos, kw, node):
    if r.op == 'const' and not kw and r.args[0].count('{}') == len(pos) and r.args[0].count('{') == len(pos):
        parts = []
        for i, piece in enumerate(r.args[0].split('{}')):
            if i:
                parts.append(pos[i - 1])
            parts.append(piece)
        return fmt_lifted(ip, parts)
    return None


STR_METHODS = {n: _str_const(n) for n in ('lower', 'upper', 'strip', 'replace', 'startswith', 'endswith', 'split',
                                          'lstrip', 'rstrip', 'count', 'find', 'isdigit', 'title', 'capitalize')}
STR_METHODS['join'] = _join
STR_METHODS['format'] = _s_format


# -------------------------------------------------------------------------------------- model vocabulary
def _inst(ip, cls, attrs, node):
    c = ip.new_cell('inst', cls, node)
    c.attrs.update(attrs)
    t = ip.ref(c)
    return t


def make_variable(ip, cls, env, node):
    g = env.get
    label = g('label')
    short = g('label_short', NONE)
    t = _inst(ip, cls, {
        'label': label, 'label_short': ite(ip.truth(short), short, label) if short is not UNDEF else label,
        'length': g('length'), 'is_binary': g('is_binary'), 'fixed_value': g('fixed_value'),
        'lower_bound': g('lower_bound'), 'upper_bound': g('upper_bound'),
        'indices': app('range', ZERO, g('length')) if g('length').op != 'ite' else lift(
            None, lambda n: app('range', ZERO, n), g('length')),
        'fixed': not_(eq(g('fixed_value'), NONE)),
    }, node)
    if 'previous_values' in env:
        ip.cell(t).attrs['previous_values'] = env['previous_values']
    ip.cell(t).data['role'] = 'variable'
    return t


def make_equation(ip, cls, env, node):
    label = env['label']
    short = env.get('label_short', NONE)
    t = _inst(ip, cls, {'label': label, 'label_short': ite(ip.truth(short), short, label)}, node)
    if 'is_objective' in env:
        ip.cell(t).attrs['is_objective'] = env['is_objective']
    ip.cell(t).attrs['summands'] = ip.new_list((), node)
    ip.cell(t).attrs['parts_of_constant'] = ip.new_list((), node)
    ip.cell(t).data['role'] = 'constraint'
    return t


def register(ip, kind, owner, t, node):
    for g, leaf in leaves(t):
        lv = and_(ip.live, g)
        if lv is FALSE:
            continue
        ip.emits.append((kind, ip.chain, lv, leaf, owner, ip.where(node) if node is not None else ''))


def add_variables(ip, self_t, env, node):
    return _add_registered(ip, self_t, env, node, 'variables', 'variable')


def add_constraints(ip, self_t, env, node):
    return _add_registered(ip, self_t, env, node, 'constraints', 'constraint')


def _add_registered(ip, self_t, env, node, store, kind):
    arg = next(v for k, v in env.items() if k == store)
    for g, leaf in leaves(arg):
        for ch, gg, e in ip.segs_of(leaf):
            lv = and_(ip.live, g, gg)
            saved = ip.live, ip.chain
            ip.live, ip.chain = lv, ip.chain + ch
            register(ip, kind, self_t, e, node)
            ip.live, ip.chain = saved
            if not ch:
                saved = ip.live
                ip.live = lv
                d = ip.get_attr(self_t, store)
                for dg, dl in leaves(d):
                    if dl.op == 'obj':
                        dict_set(ip, dl, ip.get_attr(e, 'label'), e)
                ip.live = saved
    return NONE


def create_variable(ip, env, node):
    owner = env['element_model']
    length = env['length']
    label = fmt_lifted(ip, [ip.get_attr(owner, 'label_full'), '_', env['label']])
    ts = and_(tm.lt(ONE, length), not_(ip.truth(env['avoid_use_of_variable_ts'])))
    e2 = {'label': label, 'label_short': env['label'], 'length': length}
    for k in ('is_binary', 'fixed_value', 'lower_bound', 'upper_bound', 'previous_values'):
        e2[k] = env[k]
    cls = ip.prog.cls('Variable')
    t = make_variable(ip, cls, e2, node)
    ip.cell(t).attrs['time_series_type'] = ts
    ip.cell(t).attrs['fixed_value'] = env['fixed_value']
    register(ip, 'variable', owner, t, node)
    _store(ip, owner, 'variables', label, t)
    return t


def _store(ip, owner, store, label, t):
    if owner.op == 'obj':
        for g, dl in leaves(ip.get_attr(owner, store)):
            if dl.op == 'obj' and ip.cell(dl).kind == 'dict':
                dict_set(ip, dl, label, t)


def create_equation(ip, env, node):
    owner = env['element_model']
    label = fmt_lifted(ip, [ip.get_attr(owner, 'label_full'), '_', env['label']])

    def build(ty):
        cls = {'eq': 'Equation', 'ineq': 'Inequation'}.get(ty.args[0] if ty.op == 'const' else None)
        if cls is None:
            return app('bad_equation_type', ty)
        t = make_equation(ip, ip.prog.cls(cls), {'label': label, 'label_short': env['label'],
                                                'is_objective': FALSE}, node)
        register(ip, 'constraint', owner, t, node)
        _store(ip, owner, 'constraints', label, t)
        return t

    return ip.dispatch(env['eq_type'], build)


def add_summand(ip, self_t, env, node):
    idx = env['indices_of_variable']

    def go(eqt):
        if eqt.op != 'obj':
            ip.effect(app('call:_Constraint.add_summand', eqt, env['variable'], env['factor'], idx, en._quote(ip.truth(env['as_sum']))), node)
            return NONE
        lst = ip.get_attr(eqt, 'summands')
        _append_segs(ip, lst, [((), TRUE, mk('summand', env['variable'], env['factor'], idx, ip.truth(env['as_sum'])))])
        return NONE

    ip.dispatch(self_t, go)
    return NONE


def add_constant(ip, self_t, env, node):
    def go(eqt):
        if eqt.op != 'obj':
            ip.effect(app('call:_Constraint.add_constant', eqt, en._quote(env['value'])), node)
            return NONE
        _append_segs(ip, ip.get_attr(eqt, 'parts_of_constant'), [((), TRUE, env['value'])])
        return NONE

    ip.dispatch(self_t, go)
    return NONE


INTRINSIC_FUNCS = {'create_variable': create_variable, 'create_equation': create_equation}
INTRINSIC_METHODS = {
    ('_Constraint', 'add_summand'): add_summand, ('_Constraint', 'add_constant'): add_constant,
    ('ElementModel', 'add_variables'): add_variables, ('ElementModel', 'add_constraints'): add_constraints,
}
INTRINSIC_CLASSES = {'Variable': make_variable, 'VariableTS': make_variable, 'Equation': make_equation,
                     'Inequation': make_equation}
