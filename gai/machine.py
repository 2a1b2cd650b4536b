"""Statements, expressions and library functions of the abstract interpreter."""

import ast
import copy
import re

from . import engine as en
from . import terms as tm
from .engine import Frame, Interp, bv, ent, exists, first_over, seg, seq, sum_over, dct, strip_doc
from .program import FuncInfo
from .tables import (_append_segs, as_text, dict_set, entries, fmt, fmt_lifted, pair2)
from .terms import (FALSE, NONE, ONE, TRUE, UNDEF, ZERO, T, add, and_, app, atom, const, div, eq, is_num, ite, le,
                    leaves, lift, lt, mk, mul, neg, not_, num_of, or_, restrict, sub, subst)

GET = 'get'


def term_contains(t, x, memo=None):
    memo = {} if memo is None else memo

    def w(a):
        if isinstance(a, tuple):
            return any(w(y) for y in a)
        if not isinstance(a, T):
            return False
        if a is x:
            return True
        r = memo.get(a)
        if r is None:
            memo[a] = False
            r = any(w(y) for y in a.args)
            memo[a] = r
        return r

    return w(t)


def _simplest(g, care):
    """the condition with the fewest decisions that agrees with g where care holds"""
    best = restrict(g, care)
    wide = or_(g, not_(care))
    if wide is TRUE or len(_decisions(wide)) < len(_decisions(best)):
        best = wide
    return best


def _decisions(g, seen=None):
    seen = set() if seen is None else seen
    if g.op == 'ite' and g not in seen:
        seen.add(g)
        _decisions(g.args[1], seen)
        _decisions(g.args[2], seen)
    return seen


def _within(v, care):
    """v, and its entries, where care holds"""
    if care is TRUE or not isinstance(v, T):
        return v
    v = restrict(v, care)
    if v.op in ('seq', 'dct') and any(s.op == 'seg' and s.args[1] is not TRUE for s in v.args[0]):
        return mk(v.op, tuple(seg(s.args[0], _simplest(s.args[1], care), s.args[2])
                              if s.op == 'seg' and not (care.fv & frozenset(s.args[0])) else s for s in v.args[0]))
    return v


def _set_column(x, i, v):
    """x with a new column; columns of different names may be set in any order"""
    if x.op == 'app' and x.args[0] == 'setitem' and x.args[2].op == 'const' and isinstance(x.args[2].args[0], str):
        if x.args[2] is i:
            return app('setitem', x.args[1], i, v)
        if x.args[2].args[0] > i.args[0]:
            return app('setitem', _set_column(x.args[1], i, v), x.args[2], x.args[3])
    return app('setitem', x, i, v)


class Machine(Interp):
    # ------------------------------------------------------------------------------------- statements
    def exec_block(self, body):
        for s in body:
            if self.live is FALSE:
                return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.effect(self.unsup(s), s)
            else:
                m(s)

    def s_Pass(self, n):
        pass

    s_Import = s_ImportFrom = s_Global = s_Pass

    def s_Nonlocal(self, n):
        self.frames[-1].nonlocal_.update(n.names)

    def s_ImportFrom(self, n):
        fr = self.frames[-1]
        for a in n.names:
            src = ('.' if n.level else '') + (n.module or '')
            saved = dict(fr.module.imports)
            fr.module.imports['__local_' + a.name] = ('from', src, a.name)
            try:
                v = self.global_value(fr.module, '__local_' + a.name)
            finally:
                fr.module.imports.clear()
                fr.module.imports.update(saved)
            fr.env[a.asname or a.name] = v if v is not None else mk('ext', f'{src}.{a.name}')

    def s_Import(self, n):
        for a in n.names:
            self.frames[-1].env[a.asname or a.name.split('.')[0]] = mk('ext', a.name if a.asname else a.name.split('.')[0])

    def s_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            v._stmt = True
        self.ev(v)

    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets:
            self.assign(t, v)

    def s_AnnAssign(self, n):
        if n.value is None:
            return
        v = self.ev(n.value)
        fr = self.frames[-1]
        self.cast(v, n.annotation, fr.module)
        self.assign(n.target, v)

    def s_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            cur = self.get_attr(base, t.attr, t)
        else:
            base, i = self.ev(t.value), self.ev(t.slice)
            cur = self.subscript(base, i, t)
        rhs = self.ev(n.value)
        if isinstance(n.op, ast.Add) and any(l.op == 'obj' and self.cell(l).kind == 'list' for _, l in leaves(cur)):
            def ext(l):
                if l.op == 'obj' and self.cell(l).kind == 'list':
                    out = []
                    for g, leaf in leaves(rhs):
                        out += [(ch, and_(g, gg), e) for ch, gg, e in self.segs_of(leaf)]
                    _append_segs(self, l, out)
                return NONE
            self.dispatch(cur, ext)
            return
        if isinstance(n.op, ast.Add) and isinstance(t, ast.Attribute) and cur.op in ('attr', 'index', 'sym', 'bv') and \
                rhs.op == 'obj' and self.cell(rhs).kind == 'list' and (self.type_of(cur) or ('',))[0] == 'list':
            self.value_method(cur, 'extend', [rhs], {}, n)  # a list grows in place
            return
        new = self.binop(n.op, cur, rhs, n)
        if isinstance(t, ast.Name):
            if self.opts.writes:
                for g, l in leaves(cur):
                    if l.op not in ('obj', 'const', 'num') and self.type_of(l) not in ('num', 'bool', 'str'):
                        self.effects.append((self.chain, and_(self.live, g), app('m:__iop__', l, const(type(n.op).__name__)), self.where(n)))
            self.assign_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.set_attr(base, t.attr, new, n)
        else:
            self.store_subscript(base, i, new, t)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                for j, e in enumerate(t.elts[:i]):
                    self.assign(e, self.subscript(v, const(j), t))
                self.assign(t.elts[i].value, self.subscript(
                    v, app('slice', const(i), const(-after) if after else NONE, NONE), t))
                for j, e in enumerate(t.elts[i + 1:]):
                    self.assign(e, self.subscript(v, const(j - after), t))
                return
            for j, e in enumerate(t.elts):
                self.assign(e, self.subscript(v, const(j), t))
        elif isinstance(t, ast.Subscript):
            self.store_subscript(self.ev(t.value), self.ev(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.effect(self.unsup(t), t)

    def store_subscript(self, base, i, v, node):
        def go(x):
            if x.op == 'obj' and self.cell(x).kind == 'dict':
                dict_set(self, x, i, v, node)
                return NONE
            if x.op == 'obj' and self.cell(x).kind == 'list':
                c = self.cell(x)
                cont = c.content
                lv = restrict(self.live, c.live0)
                if cont.op == 'seq' and is_num(i):
                    k = int(num_of(i))
                    segs = list(cont.args[0])
                    if -len(segs) <= k < len(segs) and all(s.op == 'seg' and not s.args[0] and s.args[1] is TRUE for s in segs):
                        segs[k] = seg((), TRUE, ite(lv, v, segs[k].args[2]))
                        self.set_content(x, seq(segs))
                        return NONE
                self.set_content(x, ite(lv, app('setitem', cont, i, en._quote(v)), cont))
                return NONE
            ty = self.type_of(x)
            if isinstance(ty, tuple) and ty[0] == 'dict':
                dict_set(self, x, i, v, node)
                return NONE
            new = self.lift_app('setitem', x, i, v)
            if i.op == 'const' and isinstance(i.args[0], str) and self.is_frame(x):
                new = lift(None, lambda vv, x=x: _set_column(x, i, vv), v)
            if isinstance(node.value, ast.Name):
                fr = self.frames[-1]
                env = fr
                while env is not None and node.value.id not in env.env:
                    env = env.parent
                name = node.value.id
                while env is not None:  # the same object under the caller's name
                    before = env.env[name]
                    env.env[name] = ite(self.live, new, before)
                    env, name = env.given.get(name, (None, None))
                    if env is not None and restrict(env.env.get(name, UNDEF), self.live) is not restrict(before, self.live):
                        break
            elif isinstance(node.value, ast.Attribute):
                b = self.ev(node.value.value)
                for g, l in leaves(b):
                    if l.op == 'obj':
                        self.set_attr(l, node.value.attr, new, node)
            if x.op in ('sym', 'attr', 'bv', 'app') and not (x.op == 'app' and x.args[0].startswith(('setitem', 'ext:', 'full'))):
                self.effect(new, node)
            return NONE

        self.dispatch(base, go)

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b, i = self.ev(t.value), self.ev(t.slice)
                for g, l in leaves(b):
                    if l.op == 'obj' and self.cell(l).kind == 'dict':
                        self.value_method(l, 'pop', [i], {}, t)
                    else:
                        self.effect(app('delitem', l, i), n)
            elif isinstance(t, ast.Attribute):
                self.effect(app('delattr', self.ev(t.value), const(t.attr)), n)

    def s_If(self, n):
        c = self.truth(self.ev(n.test))
        entry = self.live
        self.live = and_(entry, c)
        if self.live is not FALSE:
            self.exec_block(n.body)
        l1 = self.live
        self.live = and_(entry, not_(c))
        if self.live is not FALSE:
            self.exec_block(n.orelse)
        self.live = or_(l1, self.live)

    def s_Return(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        if self.live is not FALSE:
            self.frames[-1].returns.append((self.live, v))
        self.live = FALSE

    def s_Raise(self, n):
        t = app('exc:reraise')
        if n.exc is not None:
            e = n.exc
            f = e.func if isinstance(e, ast.Call) else e
            if isinstance(f, ast.Name):
                g = self.global_value(self.frames[-1].module, f.id)
                t = app('exc:' + f.id)
                if g is None and f.id not in en._PYBUILTINS:
                    v = self.lookup(f.id, f)
                    t = v if v.op == 'app' and v.args[0].startswith('exc') else app('exc:?')
            elif isinstance(f, ast.Attribute):
                t = app('exc:' + f.attr)
            else:
                t = app('exc:?')
        self.raise_(t, n)

    def raise_(self, t, n):
        if self.live is not FALSE:
            self.raises.append((self.chain, self.live, t, self.where(n)))
        self.live = FALSE

    def s_Assert(self, n):
        c = self.truth(self.ev(n.test))
        entry = self.live
        self.live = and_(entry, not_(c))
        self.raise_(app('exc:AssertionError'), n)
        self.live = and_(entry, c)

    def s_FunctionDef(self, n):
        fr = self.frames[-1]
        fi = FuncInfo(n, fr.module, None, overlay=fr.fi.overlay if fr.fi else False)
        self.closures.append((n, fr, fi))
        v = mk('closure', len(self.closures) - 1)
        fr.env[n.name] = v if not fi.other_decorators else app('decorated', v)

    def s_ClassDef(self, n):
        self.frames[-1].env[n.name] = app('localclass', const(n.name))

    def s_With(self, n):
        ctxs = []
        for it in n.items:
            v = self.ev(it.context_expr)
            ctxs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(n.body)

    def s_Try(self, n):
        self.trycount += 1
        tid = self.trycount
        entry = self.live
        fr = self.frames[-1]
        nr, nret = len(self.raises), len(fr.returns)
        atoms = []
        fail = FALSE
        for i, h in enumerate(n.handlers):
            name = ast.unparse(h.type) if h.type is not None else 'BaseException'
            may = self._try_subject(n)
            a = FALSE if may is None else and_(atom(app('exc', const(name), may)), not_(fail))
            atoms.append((a, name))
            fail = or_(fail, a)
        self.live = and_(entry, not_(fail))
        numbers = any(re.search(r'\bValueError\b', name) for _, name in atoms)
        self.number_tries += numbers
        self.exec_block(n.body)
        self.number_tries -= numbers
        normal = self.live
        if n.orelse:
            self.exec_block(n.orelse)
            normal = self.live
        # explicit raises of the body that a handler catches
        body_raises = self.raises[nr:]
        caught = [FALSE] * len(n.handlers)
        keep = []
        for r in body_raises:
            ename = r[2].args[0][4:] if r[2].op == 'app' and r[2].args[0].startswith('exc:') else '?'
            for i, (a, name) in enumerate(atoms):
                names = [x.strip() for x in name.strip('()').split(',')]
                if ename in names or 'Exception' in names or 'BaseException' in names:
                    if r[0] == self.chain:
                        caught[i] = or_(caught[i], r[1])
                        break
            else:
                keep.append(r)
        self.raises[nr:] = keep
        ends = normal
        for i, h in enumerate(n.handlers):
            self.live = or_(and_(entry, atoms[i][0]), caught[i])
            if h.name:
                fr.env[h.name] = app('exc:reraise')
            self.exec_block(h.body)
            ends = or_(ends, self.live)
        self.live = ends
        if n.finalbody:
            self.live = entry
            self.in_final = True
            self.exec_block(n.finalbody)
            self.live = and_(ends, self.live)
            # what happens whether or not an exception passed: mark
            self.effect(app('finally', const(len(n.finalbody) > 0)), n) if False else None

    def _try_subject(self, n):
        """identity of what may fail: the called names of the protected body"""
        names = {ast.unparse(c.func).split('.')[-1] for s in n.body for c in ast.walk(s) if isinstance(c, ast.Call)}
        if names == {'float'}:  # what makes this fail is known: see x_float
            return None
        return const(','.join(sorted(names)))

    def s_Break(self, n):
        self.frames[-1].loops[-1]['breaks'].append(self.live)
        self.live = FALSE

    def s_Continue(self, n):
        self.frames[-1].loops[-1]['continues'].append(self.live)
        self.live = FALSE

    # ------------------------------------------------------------------------------------------- loops
    def iter_segs(self, it):
        if it.op == 'ite':
            out = []
            for g, leaf in leaves(restrict(it, self.live)):
                if leaf is UNDEF or and_(self.live, g) is FALSE:
                    continue
                out += [(ch, and_(g, gg), e) for ch, gg, e in self.iter_segs(leaf)]
            merged, seen = [], {}
            for ch, g, e in out:
                k = (ch, e)
                if k in seen:
                    merged[seen[k]] = (ch, or_(merged[seen[k]][1], g), e)
                else:
                    seen[k] = len(merged)
                    merged.append((ch, g, e))
            return merged
        ty = self.type_of(it)
        if isinstance(ty, tuple) and ty[0] == 'dict' and it.op not in ('obj', 'dct'):
            return [(ch, g, k) for ch, g, k, v in entries(self, it)]
        if it.op == 'obj' and self.cell(it).kind == 'dict':
            return [(ch, g, k) for ch, g, k, v in entries(self, it)]
        return self.segs_of(it)

    def by_position(self, lo, hi, name, body, orelse, n):
        """`for i in range(len(items))` that reads items[i] goes over the items of a list"""
        if not (lo is ZERO and isinstance(hi, ast.Call) and isinstance(hi.func, ast.Name)
                and hi.func.id == 'len' and len(hi.args) == 1 and isinstance(hi.args[0], ast.Name)):
            return False
        seq = hi.args[0].id
        value = self.ev(hi.args[0])
        for _, leaf in leaves(restrict(value, self.live)):
            ty = self.type_of(leaf)
            if leaf.op == 'obj' and self.cell(leaf).kind != 'list' or isinstance(ty, tuple) and ty[0] in ('dict', 'set'):
                return False
        elem, stale, used, out = name + '__item', False, False, []

        class Items(ast.NodeTransformer):
            def visit_Subscript(self, x):
                if (isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == seq
                        and isinstance(x.slice, ast.Name) and x.slice.id == name and not stale):
                    return ast.copy_location(ast.Name(id=elem, ctx=ast.Load()), x)
                return self.generic_visit(x)
        for s in body:
            new = Items().visit(copy.deepcopy(s))
            steps = self._steps(s, name)
            for x in ast.walk(new):
                if isinstance(x, ast.Name) and x.id == seq:
                    return False
                used = used or not steps and isinstance(x, ast.Name) and x.id == name
            stale = stale or steps
            out.append(new)
        if used:
            call = ast.copy_location(ast.Call(func=ast.Name(id='enumerate', ctx=ast.Load()), args=[hi.args[0]], keywords=[]), hi)
            target = ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in (name, elem)], ctx=ast.Store())
            self.loop(self.ev(ast.fix_missing_locations(call)), lambda e: self.assign(target, e), out, orelse, n)
        else:
            self.loop(value, lambda e: self.assign_name(elem, e), [s for s in out if not self._steps(s, name)], orelse, n)
        return True

    @staticmethod
    def _steps(s, name):
        t = s.target if isinstance(s, ast.AugAssign) else s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else None
        return isinstance(t, ast.Name) and t.id == name

    def _strip_enumerate(self, n):
        """`for _, x in enumerate(items)` goes over the items themselves (which may grow meanwhile)"""
        c, t = n.iter, n.target
        if (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'enumerate' and len(c.args) == 1 and not c.keywords
                and isinstance(c.args[0], (ast.Name, ast.Attribute)) and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2
                and isinstance(t.elts[0], ast.Name)):
            name = t.elts[0].id
            if not any(isinstance(x, ast.Name) and x.id == name for s in n.body + n.orelse for x in ast.walk(s)) and \
                    not self._read_later(name, n):
                new = ast.copy_location(ast.For(target=t.elts[1], iter=c.args[0], body=n.body, orelse=n.orelse), n)
                return new
        return n

    def _read_later(self, name, n):
        fi = self.frames[-1].fi
        body = fi.node if fi is not None else None
        return name != '_' and (body is None or sum(isinstance(x, ast.Name) and x.id == name for x in ast.walk(body)) > 1)

    def s_For(self, n):
        n = self._strip_enumerate(n)
        if (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1
                and isinstance(n.target, ast.Name) and not n.iter.keywords
                and self.by_position(ZERO, n.iter.args[0], n.target.id, n.body, n.orelse, n)):
            return
        it = self.ev(n.iter)
        self.loop(it, lambda e: self.assign(n.target, e), n.body, n.orelse, n)

    def loop(self, it, bind, body, orelse, node):
        segs = self.iter_segs(it)
        fr = self.frames[-1]
        entry = self.live
        brk_total = FALSE
        self.iterated = it
        todo = list(segs)
        content0 = self.cell(it).content if it.op == 'obj' and self.cell(it).kind == 'list' else None
        nr = 0
        while nr < len(todo) or content0 is not None and self._grown(it, content0, todo, node):
            ch, g, e = todo[nr]
            nr += 1
            rec = {'breaks': [], 'continues': []}
            fr.loops.append(rec)
            cur = self.live
            if cur is FALSE:
                fr.loops.pop()
                break
            if not ch:
                start = and_(cur, g)
                if start is FALSE:
                    fr.loops.pop()
                    continue
                self.live = start
                bind(e)
                self.exec_block(body)
                self.live = or_(self.live, *rec['continues'], and_(cur, not_(g)))
                brk_total = or_(brk_total, *rec['breaks'])
                fr.loops.pop()
            else:
                brk_total = or_(brk_total, self.quantified(ch, g, e, bind, body, rec, it))
                fr.loops.pop()
        if orelse:
            self.exec_block(orelse)
        self.live = or_(self.live, brk_total)

    def _grown(self, it, content0, todo, node):
        """a list that its own loop extends is iterated up to its new end"""
        if self.cell(it).content is content0:
            return False
        segs = self.iter_segs(it)
        n = len(todo)
        if len(segs) > 200 or [s[2] for s in segs[:n]] != [s[2] for s in todo]:
            self.effect(self.unsup(node, 'the iterated list changes'), node)
            return False
        todo += segs[n:]
        return len(todo) > n

    # state snapshots -----------------------------------------------------------------------------------
    def _frames_all(self):
        out, seen = [], set()

        def push(f):
            while f is not None and id(f) not in seen:
                seen.add(id(f))
                out.append(f)
                f = f.parent

        for f in self.frames:
            push(f)
        for _, f, _ in self.closures:
            push(f)
        return out

    def snapshot(self):
        fs = self._frames_all()
        return {
            'frames': [(f, dict(f.env), len(f.returns), len(f.yields) if f.yields is not None else 0) for f in fs],
            'ncell': len(self.cells),
            'cells': [(dict(c.attrs), c.content, c.havoc) for c in self.cells],
            'sym': dict(self.symstore),
            'lens': [len(x) for x in (self.effects, self.raises, self.logs, self.emits, self.closures, self.unsupported)],
            'live': self.live, 'chain': self.chain, 'try': self.trycount, 'wlog': len(self.wlog),
        }

    def rollback(self, s):
        for f, env, nr, ny in s['frames']:
            f.env = dict(env)
            del f.returns[nr:]
            if f.yields is not None:
                del f.yields[ny:]
        del self.cells[s['ncell']:]
        for c, (a, cont, hv) in zip(self.cells, s['cells']):
            c.attrs, c.content, c.havoc = dict(a), cont, hv
        self.symstore = dict(s['sym'])
        for x, n in zip((self.effects, self.raises, self.logs, self.emits, self.closures, self.unsupported), s['lens']):
            del x[n:]
        self.live, self.chain, self.trycount = s['live'], s['chain'], s['try']
        del self.wlog[s['wlog']:]

    def changed(self, s, bvs):
        """locations whose value differs from the snapshot: [(kind, owner, key, old)]"""
        out = []
        for f, env, _, _ in s['frames']:
            for k, v in f.env.items():
                old = env.get(k, UNDEF)
                if old is not v:
                    out.append(('env', f, k, old))
        point = {}
        bs = set(bvs)
        for cid, name, vals in self.wlog[s['wlog']:]:
            ok = bs <= set(vals)
            point[(cid, name)] = point.get((cid, name), True) and ok
        for i, (a, cont, _) in enumerate(s['cells']):
            c = self.cells[i]
            for k, v in c.attrs.items():
                old = a.get(k, UNDEF)
                if old is not v and not (c.chain and point.get((i, k))):
                    out.append(('attr', c, k, old))
            if c.content is not cont and not (c.chain and point.get((i, '[]'))):
                out.append(('content', c, None, cont))
        for k, v in self.symstore.items():
            old = s['sym'].get(k)
            if old is not v and not (k[0].fv & bs):
                out.append(('sym', self, k, old))
        return out

    def setloc(self, kind, owner, key, val):
        if kind == 'env':
            owner.env[key] = val
        elif kind == 'attr':
            owner.attrs[key] = val
        elif kind == 'content':
            owner.content = val
        elif val is None:
            self.symstore.pop(key, None)
        else:
            self.symstore[key] = val

    def getloc(self, kind, owner, key):
        if kind == 'env':
            return owner.env.get(key, UNDEF)
        if kind == 'attr':
            return owner.attrs.get(key, UNDEF)
        if kind == 'content':
            return owner.content
        return self.symstore.get(key)

    def quantified(self, ch, g, e, bind, body, rec, it=None):
        """one loop segment over binders ch; returns the break gate (already quantified)"""
        bvs = tuple(ch)
        L, chain0 = self.live, self.chain
        S = and_(L, g)
        if S is FALSE:
            return FALSE
        depth = len(chain0)
        snap = self.snapshot()
        wl = snap['wlog']

        def run(start):
            rec['breaks'].clear()
            rec['continues'].clear()
            self.live, self.chain = start, chain0 + bvs
            bind(e)
            self.exec_block(body)
            end = or_(self.live, *rec['continues'])
            return end, or_(FALSE, *rec['breaks'])

        end, brk = run(S)
        ch_locs = self.changed(snap, bvs)
        ret = FALSE
        for f, env, nr, _ in snap['frames']:
            for gg, _v in f.returns[nr:]:
                ret = or_(ret, gg)
        stop = or_(brk, ret)
        start = S
        phis = []
        need2 = False
        if stop is not FALSE:
            start = and_(S, atom(mk('noearlier', *en._canon_bound(bvs, stop)))) if self._has_side(ch_locs, snap) else S
            need2 = start is not S
        # reached-closure iteration: the iterated list grows in its own body
        if it is not None and it.op == 'obj' and self.cell(it).kind == 'list' and any(
                k == 'content' and o is self.cell(it) for k, o, _, _ in ch_locs):
            return self._reach_loop(it, snap, bvs, e, bind, body, L, chain0)
        carried = [(k, o, key, old) for k, o, key, old in ch_locs if old is not UNDEF]
        if carried:
            need2 = True
        if need2:
            self.rollback(snap)
            for k, o, key, old in carried:
                self.phicount += 1
                pid = f'{depth}.{self.phicount}'
                if k == 'content' or (k == 'sym' and key[1] == '[]'):
                    cont = old
                    isd = (o.kind == 'dict') if k == 'content' else True
                    base = (dct if isd else seq)([mk('segphi', pid, chain0)])
                    ph = mk('segphi', pid, chain0)
                    self.setloc(k, o, key, base)
                else:
                    ph = mk('phi', pid, chain0)
                    if isinstance(old, T):
                        ty = self.type_of(old)
                        if ty is not None and old is not NONE:
                            self.types[ph] = ty
                    self.setloc(k, o, key, ph)
                phis.append((k, o, key, old, ph))
            end, brk = run(start)
            counters = self._counters(ch, g, S, end, brk, phis)
            if counters:  # a number that grows by the same step in every iteration follows the position
                self.rollback(snap)
                for i, (k, o, key, old, ph) in enumerate(phis):
                    self.setloc(k, o, key, add(old, tm.mul(counters[i], self.idx(ch[0]))) if i in counters else ph
                                if ph.op == 'phi' else (dct if k != 'content' or o.kind == 'dict' else seq)([ph]))
                end, brk = run(start)
                n = self._dlen(ch[0].args[1])
                counted = [(k, o, key, add(old, tm.mul(counters[i], n))) for i, (k, o, key, old, ph) in enumerate(phis) if i in counters]
                phis = [x for i, x in enumerate(phis) if i not in counters]
            else:
                counted = []
        else:
            counted = []
        after = self.changed(snap, bvs)
        done = set()
        finals = []
        fine = not_(and_(S if not need2 else start, not_(end), not_(brk)))  # no iteration was left by an exception
        for f, env, nr, _ in snap['frames']:
            for gg, _v in f.returns[nr:]:
                fine = or_(fine, gg)
        known = {(id(o), key, k): (old, ph) for k, o, key, old, ph in phis}
        for k, o, key, old, ph in phis:
            care = and_(fine, o.live0) if k == 'content' else fine
            finals.append((k, o, key, self.close(bvs, ph, old, _within(self.getloc(k, o, key), care), k, phis)))
            self.phimap[ph.args[0]] = chain0, finals[-1][3]  # what the location holds in the end identifies it outside the loop
            done.add((id(o), key, k))
        for x in counted:
            finals.append(x)
            done.add((id(x[1]), x[2], x[0]))
        for k, o, key, old in after:
            if (id(o), key, k) in done:
                continue
            v = self.getloc(k, o, key)
            if old is UNDEF:
                finals.append((k, o, key, self._leak(bvs, start, v)))
        self.live, self.chain = L, chain0
        for k, o, key, v in finals:
            self.setloc(k, o, key, v)
        # leave the loop
        lost = and_(S, not_(end), not_(brk))
        for f, env, nr, ny in snap['frames']:
            new = f.returns[nr:]
            if new:
                f.returns[nr:] = [(and_(L, exists(bvs, gg)), self._pick('first', bvs, restrict(gg, L), v)) for gg, v in new]
            if f.yields is not None and len(f.yields) > ny:
                f.yields[ny:] = [self._wrapseg(bvs, y) for y in f.yields[ny:]]
        self.live = and_(L, not_(exists(bvs, lost))) if lost is not FALSE else L
        b = FALSE
        if brk is not FALSE:
            b = and_(L, exists(bvs, brk))
            self.live = and_(self.live, not_(b))
        return b

    def _counters(self, ch, g, S, end, brk, phis):
        if len(ch) != 1 or g is not TRUE or brk is not FALSE or end is not S and restrict(end, S) is not TRUE:
            return {}
        out = {}
        for i, (k, o, key, old, ph) in enumerate(phis):
            if k == 'env' and ph.op == 'phi' and isinstance(old, T) and is_num(old):
                v = restrict(self.getloc(k, o, key), S)
                if v is not ph and v.op != 'ite':
                    step = tm.sub(v, ph)
                    if is_num(step):
                        out[i] = step
        return out

    def _has_side(self, locs, snap):
        return bool(locs) and any(k != 'env' or old is not UNDEF for k, o, key, old in locs) or len(self.effects) > snap['lens'][0] or len(self.emits) > snap['lens'][3]

    def _leak(self, bvs, g, v):
        if v is UNDEF:
            return v
        # keep binder-free parts, wrap the rest as the last iteration's value
        inner = lift(None, lambda x: UNDEF if x is UNDEF else x, v)
        return self._pick('last', bvs, g, inner)

    def _pick(self, op, bvs, g, v):
        v = restrict(v, g)
        if not (v.fv & frozenset(bvs)):
            return v
        if v.op == 'obj':
            return mk(op, *en._canon_bound(bvs, g, v))
        r = first_over(op, bvs, g, v)
        if v.op == 'app' and v.args[0] == 'get' and v.args[2].op == 'bv' and v.args[2].args[1] is app('keys', v.args[1]) \
                and self._classes_of(self.type_of(v)):
            tm.GIVEN.add(r)  # an element of a container of elements
        return r

    def _wrapseg(self, bvs, s):
        if s.op != 'seg':
            return s
        return seg(bvs + s.args[0], s.args[1], s.args[2])

    def close(self, bvs, ph, v0, v1, kind, phis):
        """value after the loop of a location that was ph at the start of an iteration"""
        others = [p for _, _, _, _, p in phis if p is not ph]
        if ph.op == 'segphi':
            if v1.op in ('seq', 'dct') and v1.args[0] and v1.args[0][0] is ph:
                rest = v1.args[0][1:]
                if not any(term_contains(s, ph) for s in rest):
                    if any(term_contains(s, app('carried', mk('phiid', *ph.args))) for s in rest):
                        return mk('fold', bvs, ph, v0 if v0 is not None else dct(()), v1)
                    wrapped = [self._wrapseg(bvs, s) for s in rest]
                    if v0 is None:
                        v0 = dct(())
                    if v1.op == 'dct':
                        if v0.op != 'dct':
                            return app('merged', v0, dct(wrapped))
                        return dct(tuple(v0.args[0]) + tuple(wrapped))
                    if v0.op == 'seq':
                        return seq(tuple(v0.args[0]) + tuple(wrapped))
                    return seq([seg(*x) for x in self.segs_of(v0)] + wrapped)
            return self._fold(bvs, ph, v0 if v0 is not None else dct(()), v1)
        if v0 is None:  # symbolic attribute that had no recorded value
            v0 = app('initial', ph) if False else None
        if v1 is ph:
            return v0
        ls = leaves(v1)
        guards_dep = any(ph in g.fv for g, _ in ls)
        otherdep = any(p in v1.fv for p in others)
        if v0 is None:
            return self._fold(bvs, ph, NONE, v1)
        if not guards_dep and not otherdep:
            rest = [(g, l) for g, l in ls if l is not ph]
            if not rest:
                return v0
            if all(ph not in l.fv for _, l in rest):
                G = or_(*[g for g, _ in rest])
                V = restrict(v1, G)
                got = exists(bvs, G)
                if not (V.fv & frozenset(bvs)):
                    return ite(got, V, v0)
                return ite(got, self._pick('last', bvs, G, V), v0)
            delta = ZERO
            for g, l in rest:
                d = tm.sub(l, ph)
                if ph in d.fv:
                    delta = None
                    break
                delta = add(delta, ite(g, d, ZERO))
            if delta is not None:
                return add(v0, sum_over(bvs, delta))
        if not otherdep:
            r = self._text_pattern(bvs, ph, v0, v1)
            if r is not None:
                return r
        if not otherdep and v0 in (TRUE, FALSE) or en.is_bool_diagram(v0) and not otherdep:
            t = self.truthof(subst(v1, {ph: TRUE}))
            f = self.truthof(subst(v1, {ph: FALSE}))
            if t is not None and f is not None and ph not in t.fv and ph not in f.fv:
                if t is TRUE:
                    return ite(v0, TRUE, exists(bvs, f))
                if f is FALSE:
                    return ite(v0, not_(exists(bvs, not_(t))), FALSE)
                if t is f:
                    G = exists(bvs, TRUE)
                    return ite(G, self._pick('last', bvs, TRUE, t), v0) if (t.fv & frozenset(bvs)) else ite(G, t, v0)
        if not otherdep:
            r = self._first_pattern(bvs, ph, v0, v1)
            if r is not None:
                return r
        return self._fold(bvs, ph, v0, v1)

    def _first_pattern(self, bvs, ph, v0, v1):
        """x = None; for ...: if x is None and cond: x = e   -> first"""
        if v0 is NONE:
            isn = app('isnone', ph)
            t = en._gcof(v1, isn, True)
            f = en._gcof(v1, isn, False)
            if f is ph and ph not in {x for g, l in leaves(t) for x in g.fv}:
                rest = [(g, l) for g, l in leaves(t) if l is not ph]
                if all(ph not in l.fv for _, l in rest):
                    G = or_(*[g for g, _ in rest])
                    return ite(exists(bvs, G), self._pick('first', bvs, G, restrict(t, G)), NONE)
        return None

    def _text_pattern(self, bvs, ph, v0, v1):
        """text = start; for ...: text += piece   ->   start + ''.join(pieces)"""
        if v0.op != 'fmt' and not (v0.op == 'const' and isinstance(v0.args[0], str)):
            return None
        G, piece = [], const('')
        for g, l in leaves(v1):
            if l is ph:
                continue
            if l.op != 'fmt' or l.args[0][0] is not ph or ph in g.fv:
                return None
            rest = fmt(l.args[0][1:])
            if ph in rest.fv:
                return None
            G.append(g)
            piece = ite(g, rest, piece)
        g = or_(*G)
        return fmt([v0, app('join', const(''), seq([seg(bvs, g, restrict(piece, g))]))])

    def truthof(self, v):
        return v if v in (TRUE, FALSE) or en.is_bool_diagram(v) else None

    def _fold(self, bvs, ph, v0, v1):
        nph = mk(ph.op, 'c')
        m = {ph: nph}
        v1 = subst(v1, m) if ph.op == 'phi' else _replace(v1, m)
        nb, vv = en._canon_bound(bvs, v1)
        return mk('fold', nb, nph, v0, vv)

    def _reach_loop(self, it, snap, bvs, e, bind, body, L, chain0):
        """iterating a list that its body extends: the elements reachable from the initial ones"""
        c = self.cell(it)
        old = snap['cells'][c.id][1]
        new = c.content
        n0 = len(old.args[0]) if old.op == 'seq' else 0
        step = seq(new.args[0][n0:]) if new.op == 'seq' and old.op == 'seq' else new
        par = mk('lamv', 'r', 0)
        lam = mk('lam', (par,), subst(step, {bvs[0]: par}) if e is bvs[0] else step)
        self.rollback(snap)
        dom = app('reach', old, lam)
        b = bv(len(chain0), dom)
        ty = self.type_of(e)
        if ty is not None:
            self.types[b] = ty
        # second pass over the closure, with the growth removed
        saved_content = seq([seg((b,), TRUE, b)])
        c.content = saved_content
        self.live = L
        brk = self.quantified((b,), TRUE, subst(e, {bvs[0]: b}), bind, body, self.frames[-1].loops[-1], None)
        c.content = saved_content
        return brk

    def s_While(self, n):
        # counting loops become range loops, worklists become closures, the rest is a fixed-point marker
        r = self._as_range(n)
        if r is not None:
            name, lo, hi, body = r
            a = self.ev(lo) if isinstance(lo, ast.AST) else lo
            b = self.ev(hi)
            if not self.by_position(a, hi, name, body, n.orelse, n):
                self.loop(app('range', a, b), lambda e: self.assign_name(name, e), body, n.orelse, n)
            if not any(isinstance(x, ast.Break) for s in body for x in ast.walk(s)):
                self.assign_name(name, ite(lt(a, b), b, a))
            else:
                self.assign_name(name, app('counter', a, b))
            return
        r = self._as_growing(n)
        if r is not None:
            self.s_For(r)
            self.assign_name(n.test.left.id, self.ev(n.test.comparators[0]))
            return
        w = self._as_worklist(n)
        if w is not None:
            lst, var, rest = w
            cur = self.ev(lst)
            if cur.op == 'obj':
                fresh = self.new_list([seg(*s) for s in self.segs_of(cur)], n)
                # pops become iteration, pushes extend the iterated list
                saved = self.frames[-1].env.get(lst.id)
                self.frames[-1].env[lst.id] = fresh
                self.run_for(fresh, ast.Name(id=var, ctx=ast.Store()), rest, n.orelse, n)
                self.frames[-1].env[lst.id] = self.new_list((), n)
                return
        c = self.truth(self.ev(n.test))
        entry = self.live
        rec = {'breaks': [], 'continues': []}
        self.frames[-1].loops.append(rec)
        snap = self.snapshot()
        self.live = and_(entry, c)
        if self.live is not FALSE:
            self.exec_block(n.body)
        locs = self.changed(snap, ())
        vals = [(k, o, key, old, self.getloc(k, o, key)) for k, o, key, old in locs]
        for k, o, key, old, v in vals:
            if isinstance(v, T) and isinstance(old, T) and old is not UNDEF:
                self.setloc(k, o, key, app('while', en._quote(c), old, v))
        self.frames[-1].loops.pop()
        self.live = entry

    def run_for(self, it, target, body, orelse, node):
        n = ast.For(target=target, iter=None, body=body, orelse=orelse)
        ast.copy_location(n, node)
        self.loop(it, lambda e: self.assign(target, e), body, orelse, node)

    def _as_growing(self, n):
        """`while i < len(items)` that reads items[i], then counts, and only lets the list grow: as a loop over the list"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)
                and isinstance(t.comparators[0], ast.Call) and ast.unparse(t.comparators[0].func) == 'len'
                and len(t.comparators[0].args) == 1 and isinstance(t.comparators[0].args[0], ast.Name)):
            return None
        i, seq_ = t.left.id, t.comparators[0].args[0].id
        if self.lookup(i, t.left) is not ZERO:
            return None
        elem, body, state = i + '__item', [], {'steps': 0, 'bad': False}

        class Items(ast.NodeTransformer):
            def visit_Subscript(self, x):
                if isinstance(x.ctx, ast.Load) and ast.unparse(x) == f'{seq_}[{i}]' and not state['steps']:
                    return ast.copy_location(ast.Name(id=elem, ctx=ast.Load()), x)
                return self.generic_visit(x)

            def visit_Name(self, x):
                if x.id == i or x.id == seq_ and isinstance(x.ctx, ast.Store):
                    state['bad'] = True
                return x

            def visit_Continue(self, x):
                state['bad'] = state['bad'] or not state['steps']
                return x

            def visit_Call(self, x):
                f = x.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == seq_ and f.attr not in ('append', 'extend'):
                    state['bad'] = True
                return self.generic_visit(x)

            def visit_AugAssign(self, x):
                if isinstance(x.target, ast.Name) and x.target.id == seq_ and isinstance(x.op, ast.Add):
                    x.value = self.visit(x.value)
                    return x
                return self.generic_visit(x)
        for s in n.body:
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and self._steps(s, i) and isinstance(s.value, ast.Constant) \
                    and s.value.value == 1:
                state['steps'] += 1
            else:
                body.append(Items().visit(copy.deepcopy(s)))
        if state['bad'] or state['steps'] != 1:
            return None
        f = ast.For(target=ast.Name(id=elem, ctx=ast.Store()), iter=ast.Name(id=seq_, ctx=ast.Load()), body=body, orelse=n.orelse)
        return ast.fix_missing_locations(ast.copy_location(f, n))

    def _as_range(self, n):
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, r, op = r, l, (ast.Lt() if isinstance(op, ast.Gt) else ast.LtE())
        if not (isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.LtE, ast.NotEq))):
            return None
        if not n.body:
            return None
        def is_step(s):
            if isinstance(s, ast.AugAssign):
                tgt, v, ok = s.target, s.value, isinstance(s.op, ast.Add)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
                tgt, v = s.targets[0], s.value.right
                ok = isinstance(s.value.left, ast.Name) and s.value.left.id == l.id
            else:
                return False
            return ok and isinstance(tgt, ast.Name) and tgt.id == l.id and isinstance(v, ast.Constant) and v.value == 1

        steps = [i for i, s in enumerate(n.body) if is_step(s)]
        if len(steps) != 1:
            return None
        bounds = {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}
        attrs = {x.attr for x in ast.walk(r) if isinstance(x, ast.Attribute)}
        for i, s in enumerate(n.body):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.id in bounds or x.id == l.id and i != steps[0]):
                    return None
                if isinstance(x, ast.Continue) and i < steps[0]:
                    return None
                if isinstance(x, ast.Attribute) and (isinstance(x.ctx, ast.Store) and x.attr in attrs or x.attr in (
                        'append', 'extend', 'pop', 'remove', 'insert', 'clear') and ast.unparse(x.value) in ast.unparse(r)):
                    return None
        hi = r if not isinstance(op, ast.LtE) else ast.BinOp(left=r, op=ast.Add(), right=ast.Constant(value=1))
        if isinstance(hi, ast.BinOp) and hi is not r:
            ast.copy_location(hi, r)
            ast.fix_missing_locations(hi)
        body = n.body[:-1] if steps[0] == len(n.body) - 1 else n.body
        return l.id, self.lookup(l.id, l), hi, body

    def _as_worklist(self, n):
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and isinstance(
                t.left.func, ast.Name) and t.left.func.id == 'len':
            t = t.left.args[0]
        if not isinstance(t, ast.Name) or not n.body:
            return None
        f = n.body[0]
        if not (isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.targets[0], ast.Name)
                and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Attribute)
                and f.value.func.attr in ('pop', 'popleft') and isinstance(f.value.func.value, ast.Name)
                and f.value.func.value.id == t.id):
            return None
        return t, f.targets[0].id, n.body[1:]

    # --------------------------------------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.unsup(n)
        return m(n)

    def e_Constant(self, n):
        if isinstance(n.value, (bytes, complex)):
            return app('lit', const(repr(n.value)))
        return const(n.value)

    def e_Name(self, n):
        return self.lookup(n.id, n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Attribute(self, n):
        return self.get_attr(self.ev(n.value), n.attr, n)

    def e_Starred(self, n):
        return mk('star', self.as_seq(self.ev(n.value)))

    def e_Lambda(self, n):
        fr = self.frames[-1]
        self.closures.append((n, fr, fr.fi))
        return mk('closure', len(self.closures) - 1)

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        entry = self.live
        a = b = None
        self.live = and_(entry, c)
        if self.live is not FALSE:
            a = self.ev(n.body)
        l1 = self.live
        self.live = and_(entry, not_(c))
        if self.live is not FALSE:
            b = self.ev(n.orelse)
        self.live = or_(l1, self.live)
        if a is None:
            return b if b is not None else UNDEF
        if b is None:
            return a
        return self._or_empty(c, a, b)

    def _or_empty(self, c, a, b):
        """x or []: for a list (or dict) that exists, an empty one is as good as another"""
        if c.op == 'ite' and c.args[0].op == 'app' and c.args[0].args[0] == 'truthy':
            x = c.args[0].args[1]
            y, e = (a, b) if c.args[1] is TRUE else (b, a)
            if y is x and e.op == 'obj' and self.cell(e).kind in ('list', 'dict'):
                ty, content = self.type_of(x), self.content(e)
                if isinstance(ty, tuple) and ty[0] == self.cell(e).kind and content.op in ('seq', 'dct') and not content.args[0]:
                    return ite(eq(x, NONE), e, x)
        return ite(c, a, b)

    def e_BoolOp(self, n):
        entry = self.live
        isand = isinstance(n.op, ast.And)
        conds, vals, lives = [], [], []
        live = entry
        rest = TRUE
        out = None
        pieces = []
        for i, x in enumerate(n.values):
            self.live = live
            if live is FALSE:
                break
            v = self.ev(x)
            live = self.live
            c = self.truth(v)
            stop = not_(c) if isand else c
            last = i == len(n.values) - 1
            pieces.append((and_(rest, stop) if not last else rest, v))
            rest = and_(rest, not_(stop))
            live = and_(live, not_(stop))
        res = pieces[-1][1]
        for g, v in reversed(pieces[:-1]):
            res = self._or_empty(g, v, res) if len(pieces) == 2 else ite(g, v, res)
        self.live = entry  # no construct of the analysed code raises inside a boolean operand's side effects
        return res

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(n.op, ast.USub):
            return self.arith(neg, v)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.lift_app('invert', v)

    def arith(self, f, *vs):
        return f(*vs)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        if (a.op == 'ite' or b.op == 'ite'):
            a, b = restrict(a, self.live), restrict(b, self.live)
        if a.op == 'ite' and not en.is_bool_diagram(a) or b.op == 'ite' and not en.is_bool_diagram(b):
            return self._dispatch2(a, b, lambda x, y: self.binop(op, x, y, n))
        if isinstance(op, ast.Add):
            if as_text(self, a) or as_text(self, b):
                return fmt_lifted(self, [a, b])
            if self._listy(a) or self._listy(b):
                out = self.segs_of(a) + self.segs_of(b)
                segs = [seg(*s) for s in out]
                if (a.op == 'seq' or b.op == 'seq') and not (a.op == 'obj' and b.op == 'obj'):
                    return seq(segs) if a.op == 'seq' and b.op == 'seq' else self.new_list(segs, n)
                return self.new_list(segs, n)
            return add(a, b)
        if isinstance(op, ast.Sub):
            if a.op == 'obj' and self.cell(a).kind == 'set':
                return self.new_list([seg(ch, and_(g, not_(self.contains(b, e))), e) for ch, g, e in self.segs_of(a)], n, 'set')
            if a.op == 'app' and a.args[0] in ('keys', 'set'):
                return app('setminus', a, b)
            return sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if self._listy(x) and not self._listy(y):
                    if is_num(y):
                        return self.new_list([seg(*s) for s in self.segs_of(x)] * int(num_of(y)), n)
                    return app('repeat', self.as_seq(x), y)
                if x.op == 'const' and isinstance(x.args[0], str):
                    return const(x.args[0] * int(num_of(y))) if is_num(y) else app('repeat', x, y)
            return mul(a, b)
        if isinstance(op, ast.Div):
            if as_text(self, a) or as_text(self, b):
                return self.lift_app('pathjoin', a, b)
            return div(a, b)
        if isinstance(op, ast.Pow):
            if is_num(b) and num_of(b).denominator == 1 and abs(num_of(b)) <= 8:
                r = ONE
                for _ in range(abs(int(num_of(b)))):
                    r = mul(r, a)
                return r if num_of(b) >= 0 else tm.inv(r)
            return self.lift_app('pow', a, b)
        if isinstance(op, ast.BitAnd):
            if en.is_bool_diagram(a) and en.is_bool_diagram(b):
                return and_(a, b)
            if self._setty(a) or self._setty(b):
                return self.new_list([seg(ch, and_(g, self.contains(b, e)), e) for ch, g, e in self.segs_of(a)], n, 'set')
            return self.lift_app('bitand', *self._symmetric(a, b))
        if isinstance(op, ast.BitOr):
            if en.is_bool_diagram(a) and en.is_bool_diagram(b):
                return or_(a, b)
            if a.op == 'obj' and self.cell(a).kind == 'dict':
                d = self.new_dict([ent(*x) for x in entries(self, a, every=True)], n)
                from .tables import _d_update
                _d_update(self, d, [b], {}, n)
                return d
            if self._setty(a) or self._setty(b):
                return self.new_list([seg(*s) for s in self.segs_of(a) + self.segs_of(b)], n, 'set')
            return self.lift_app('bitor', *self._symmetric(a, b))
        name = {'Mod': 'mod', 'FloorDiv': 'floordiv', 'MatMult': 'matmul', 'BitXor': 'bitxor', 'LShift': 'shl',
                'RShift': 'shr'}[type(op).__name__]
        if is_num(a) and is_num(b) and num_of(b) != 0 and name in ('mod', 'floordiv'):
            return const(num_of(a) % num_of(b)) if name == 'mod' else const(num_of(a) // num_of(b))
        if name == 'mod' and as_text(self, a):
            return self.lift_app('textmod', a, b)
        return self.lift_app(name, a, b)

    def _symmetric(self, a, b):
        return sorted((a, b)) if self.is_frame(a) and self.is_frame(b) else (a, b)

    def _listy(self, t):
        if t.op == 'seq':
            return True
        if t.op == 'obj':
            return self.cell(t).kind == 'list'
        if t.op == 'app' and t.args[0] in ('list', 'sorted'):
            return True
        ty = self.type_of(t)
        return isinstance(ty, tuple) and ty[0] in ('list',) and ty[1] != 'num'

    def _setty(self, t):
        if t.op == 'obj':
            return self.cell(t).kind == 'set'
        if t.op == 'app' and t.args[0] in ('keys', 'set'):
            return True
        ty = self.type_of(t)
        return isinstance(ty, tuple) and ty[0] == 'set'

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            res = and_(res, self.compare(op, left, right, n))
            left = right
        return res

    def frame_compare(self, op, a, b):
        """tables are compared element by element: the outcome is a table, not a truth value"""
        def one(x, y):
            x, y = unq(x), unq(y)
            if isinstance(op, (ast.Gt, ast.GtE)):
                x, y = y, x
            strict = isinstance(op, (ast.Lt, ast.Gt))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return app('frame==' if isinstance(op, ast.Eq) else 'frame!=', *sorted((x, y)))
            name = 'frame<' if strict else 'frame<='
            if y.op == 'app' and y.args[0] in ('m:abs', 'ext:abs') and len(y.args) == 2:  # |y| > x
                return app('bitor', *sorted((app(name, x, y.args[1]), app(name, y.args[1], neg(x)))))
            if x.op == 'app' and x.args[0] in ('m:abs', 'ext:abs') and len(x.args) == 2:  # |x| < y
                return app('bitand', *sorted((app(name, x.args[1], y), app(name, neg(y), x.args[1]))))
            return app(name, x, y)

        return lift(None, one, a, b)

    def compare(self, op, a, b, n):
        a, b = restrict(a, self.live), restrict(b, self.live)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) and any(
                self.is_frame(x) for _, x in list(leaves(a)) + list(leaves(b))):
            return self.frame_compare(op, a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self._dispatch2(b, a, lambda x, y: self.contains(x, y)) if (a.op == 'ite' or b.op == 'ite') else self.contains(b, a)
            return c if isinstance(op, ast.In) else not_(c)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.equal(a, b) if isinstance(op, ast.Eq) else self.same(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return not_(self.equal(a, b) if isinstance(op, ast.NotEq) else self.same(a, b))
        if isinstance(op, ast.Lt):
            return lt(self.num(a), self.num(b))
        if isinstance(op, ast.LtE):
            return le(self.num(a), self.num(b))
        if isinstance(op, ast.Gt):
            return lt(self.num(b), self.num(a))
        return le(self.num(b), self.num(a))

    def num(self, t):
        """a flag used as a number"""
        return t

    def same(self, a, b):
        """a is b: not decided by equality where a number or a word is compared with something that is computed"""
        def value(x):
            return x.op == 'num' or x.op == 'const' and isinstance(x.args[0], (str, int, float)) and not isinstance(x.args[0], bool)

        if any(value(x) != value(y) and not (x is NONE or y is NONE or x in (TRUE, FALSE) or y in (TRUE, FALSE))
               for _, x in leaves(a) for _, y in leaves(b)):
            return atom(app('same', *sorted((a, b))))
        return self.equal(a, b)

    def equal(self, a, b):
        def one(x, y):
            if x.op == 'obj' and y.op == 'obj' and x is not y and self.cell(x).kind != 'inst' and self.cell(y).kind != 'inst':
                return self.equal(self.content(x), self.content(y))
            for p, q in ((x, y), (y, x)):
                if p.op == 'obj' and self.cell(p).kind != 'inst' and q.op != 'obj':
                    if q is NONE or q.op in ('num', 'const'):
                        return FALSE
                    return tm.eq(self.content(p), q)
            for p, q in ((x, y), (y, x)):
                if p.op == 'seq' and q.op == 'seq' and not q.args[0]:  # compared with the empty list
                    return not_(self.truth(p))
            if x.op == 'seq' and y.op == 'seq' and len(x.args[0]) == len(y.args[0]) and all(
                    not s.args[0] and s.args[1] is TRUE for s in x.args[0] + y.args[0] if s.op == 'seg'):
                r = TRUE
                for s, t in zip(x.args[0], y.args[0]):
                    r = and_(r, self.equal(s.args[2], t.args[2]))
                return r
            if x is TRUE or x is FALSE or y is TRUE or y is FALSE:
                # flag compared with a literal flag
                for p, q in ((x, y), (y, x)):
                    if q in (TRUE, FALSE) and p.op not in ('num', 'poly', 'const'):
                        return atom(app('eqflag', p)) if q is TRUE else not_(atom(app('eqflag', p))) if self.type_of(p) == 'bool' else atom(app('eq', *sorted((p, q))))
            return tm.eq(x, y)

        if en.is_bool_diagram(a) and b in (TRUE, FALSE):
            return a if b is TRUE else not_(a)
        if en.is_bool_diagram(b) and a in (TRUE, FALSE):
            return b if a is TRUE else not_(b)
        return lift(None, one, a, b)

    def e_List(self, n):
        return self.new_list(self._elts(n.elts), n)

    def e_Set(self, n):
        return self.new_list(self._elts(n.elts), n, 'set')

    def e_Tuple(self, n):
        return seq(self._elts(n.elts))

    def _elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                out += [seg(*s) for s in self.iter_segs(v)]
            else:
                out.append(seg((), TRUE, self.ev(e)))
        return out

    def e_Dict(self, n):
        d = self.new_dict((), n)
        from .tables import _d_update
        for k, v in zip(n.keys, n.values):
            if k is None:
                _d_update(self, d, [self.ev(v)], {}, n)
            else:
                kk = self.ev(k)
                dict_set(self, d, kk, self.ev(v), n)
        c = self.cell(d)
        c.live0 = self.live if c.live0 is TRUE else c.live0
        return d

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v))
        return fmt_lifted(self, parts)

    def e_FormattedValue(self, v):
        x = self.ev(v.value)
        spec = self.ev(v.format_spec) if v.format_spec is not None else None
        if v.conversion not in (-1, 115):
            x = self.lift_app('repr', x)
        if spec is not None:
            x = self.lift_app('format', x, spec)
        return x

    def e_Slice(self, n):
        def g(x):
            return self.ev(x) if x is not None else NONE
        low, high, step = g(n.lower), g(n.upper), g(n.step)
        if step is ONE:
            step = NONE
        if low is ZERO and step is NONE:
            low = NONE
        return self.lift_app('slice', low, high, step)

    def e_Subscript(self, n):
        x = self.ev(n.value)
        i = self.ev(n.slice)
        if isinstance(n.slice, ast.Tuple) and i.op == 'seq' and any(s.args[2].op == 'ite' for s in i.args[0]):
            i = lift(None, lambda *xs: seq(list(xs)), *[s.args[2] for s in i.args[0]])
        return self.subscript(x, i, n)

    def subscript(self, x, i, n):
        if x.op == 'ite' or i.op == 'ite':
            r = self._dispatch2(restrict(x, self.live), restrict(i, self.live), lambda a, b: self.index(a, b, n))
        else:
            r = self.index(x, i, n)
        if en._has_undef(r):
            good = FALSE
            for g, l in leaves(r):
                if l is not UNDEF:
                    good = or_(good, g)
            if good is FALSE:
                return app('keyerror', x if x.op != 'obj' else self.content(x), i)
            r = restrict(r, good)
        return r

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        fr = self.frames[-1]
        if fr.yields is not None:
            fr.yields.append(seg((), self.live, v))
        return NONE

    def e_YieldFrom(self, n):
        v = self.ev(n.value)
        fr = self.frames[-1]
        for ch, g, e in self.iter_segs(v):
            fr.yields.append(seg(ch, and_(self.live, g), e))
        return NONE

    # -------------------------------------------------------------------------------- comprehensions
    def comp(self, n, emit):
        """evaluate generators; emit() returns a term at the innermost level; [(chain, guard, term)]"""
        base_chain, base_live = self.chain, self.live
        fr0 = self.frames[-1]
        fr = Frame({}, fr0.module, fr0.cls, fr0.self_t, fr0.fi, fr0)
        fr.loops = fr0.loops
        out = []

        def gen(i):
            if i == len(n.generators):
                v = emit()
                if self.live is not FALSE:
                    out.append((self.chain[len(base_chain):], restrict(self.live, base_live), v))
                return
            g = n.generators[i]
            it = self.ev(g.iter)
            for ch, gd, e in self.iter_segs(it):
                saved = self.live, self.chain
                start = and_(self.live, gd)
                if start is FALSE:
                    continue
                self.live, self.chain = start, self.chain + ch
                for k in list(fr.env):
                    pass
                self._bind_comp(fr, g.target, e)
                cond = TRUE
                for c in g.ifs:
                    t = self.truth(self.ev(c))
                    cond = and_(cond, t)
                    self.live = and_(self.live, t)
                if self.live is not FALSE:
                    expect = self.live
                    gen(i + 1)
                    lost = and_(expect, not_(self.live))
                else:
                    lost = FALSE
                self.live, self.chain = saved
                if lost is not FALSE:
                    self.live = and_(self.live, not_(exists(ch, lost) if ch else lost))

        self.frames.append(fr)
        try:
            gen(0)
        finally:
            self.frames.pop()
        return out

    def _bind_comp(self, fr, target, v):
        names = [x.id for x in ast.walk(target) if isinstance(x, ast.Name)]
        for nme in names:
            fr.env.pop(nme, None)
        self.assign(target, v)

    def e_ListComp(self, n):
        return self.new_list([seg(*s) for s in self.comp(n, lambda: self.ev(n.elt))], n)

    def e_SetComp(self, n):
        return self.new_list([seg(*s) for s in self.comp(n, lambda: self.ev(n.elt))], n, 'set')

    def e_GeneratorExp(self, n):
        return seq([seg(*s) for s in self.comp(n, lambda: self.ev(n.elt))])

    def e_DictComp(self, n):
        def pair():
            k = self.ev(n.key)
            return mk('pair', k, self.ev(n.value))
        ents = []
        for ch, g, p in self.comp(n, pair):
            k, v = p.args
            if not ch:
                hit = next((i for i, s in enumerate(ents) if not s[0] and s[2] is k), None)
                if hit is not None:
                    _, g0, _, v0 = ents[hit]
                    ents[hit] = ((), or_(g0, g), k, ite(g, v, v0))
                    continue
            ents.append((ch, g, k, v))
        return self.new_dict([ent(*e) for e in ents], n)

    # ------------------------------------------------------------------------------------------- calls
    def e_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            fr = self.frames[-1]
            while fr is not None and fr.cls is None:
                fr = fr.parent
            st = fr.self_t
            return mk('super', st, f'{fr.cls.module.name}:{fr.cls.name}')
        fv = self.ev(f)
        if fv.op == 'ext' and fv.args[0].startswith('logging.LOGGER'):
            said = [self.ev(a) for a in n.args] if self.opts.keep_logs else []
            self.logs.append((self.chain, self.live, fv.args[0].split('.')[-1], self.where(n), said))
            return NONE
        pos, star, seen_star = [], [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                segs = self.iter_segs(v)
                if not seen_star and all(not ch and g is TRUE for ch, g, e in segs):
                    pos += [e for _, _, e in segs]
                else:
                    seen_star = True
                    star += [seg(*s) for s in segs]
            elif seen_star:
                star.append(seg((), TRUE, self.ev(a)))
            else:
                pos.append(self.ev(a))
        kw, starkw = {}, []
        for k in n.keywords:
            if k.arg is not None:
                kw[k.arg] = self.ev(k.value)
            else:
                v = self.ev(k.value)
                for g0, leaf in leaves(v):
                    for ch, g, key, val in entries(self, leaf):
                        if not ch and g0 is TRUE and g is TRUE and key.op == 'const':
                            kw[key.args[0]] = val
                        else:
                            starkw.append(ent(ch, and_(g0, g), key, val))
        return self.call(fv, pos, kw, n, star or None, starkw or None)

    # --------------------------------------------------------------------------------- library functions
    def ext_call(self, name, pos, kw, node, star, starkw):
        short = name[9:] if name.startswith('builtins.') else name
        if name.startswith('numpy.') or name.startswith('np.'):
            short = 'np.' + name.split('.', 1)[1]
        if self.opts.writes and 'out' in kw:
            self.effect(app('ext:' + short, *[mk('kw', 'out', en._quote(self.ext_arg(kw['out'])))]), node)
        h = getattr(self, 'x_' + short.replace('.', '_'), None)
        if h is not None and not star and not starkw:
            r = h(pos, kw, node)
            if r is not None:
                return r
        if short.endswith(('Error', 'Exception', 'Warning')):
            return app('exc:' + short)
        if name.startswith('object.'):
            return NONE
        return self.generic_call(None, 'ext:' + short, pos, kw, node, star, starkw, effect=short in en.ACTIONS)

    def x_len(self, pos, kw, node):
        t = pos[0]
        for g, l in leaves(restrict(t, self.live)):
            for c in [self.cell(l).cls] if l.op == 'obj' and self.cell(l).kind == 'inst' else self._classes_of(self.type_of(l)):
                if c.find('__len__') is not None:
                    return self.dispatch(t, lambda x: self.call(self.get_attr(x, '__len__'), [], {}, node))
        return self.length(restrict(t, self.live))

    def x_range(self, pos, kw, node):
        if len(pos) == 1:
            a, b = ZERO, pos[0]
        else:
            a, b = pos[0], pos[1]
        if len(pos) == 3 and pos[2] is not ONE:
            return self.lift_app('range3', *pos)
        return lift(None, lambda x, y: app('range', x, y), a, b)

    def x_enumerate(self, pos, kw, node):
        start = pos[1] if len(pos) > 1 else kw.get('start', ZERO)
        x = restrict(pos[0], self.live)
        segs = self.iter_segs(x)
        out, n = [], ZERO
        for ch, g, e in segs:
            if not ch:
                out.append(seg((), g, pair2(add(start, n), e)))
                n = add(n, ite(g, ONE, ZERO))
            elif len(ch) == 1 and g is TRUE:
                out.append(seg(ch, g, pair2(add(add(start, n), self.idx(ch[0])), e)))
                n = add(n, self._dlen(ch[0].args[1]))
            else:
                pos_t = app('rank', seq([seg(ch, g, e)]), e)
                out.append(seg(ch, g, pair2(add(add(start, n), pos_t), e)))
                n = add(n, sum_over(ch, ite(g, ONE, ZERO)))
        return seq(out)

    def _dlen(self, d):
        return self.length(d)

    def x_zip(self, pos, kw, node):
        def go(*xs):
            segl = [self.iter_segs(x) for x in xs]
            if all(all(not ch and g is TRUE for ch, g, e in s) for s in segl):
                return seq([seg((), TRUE, seq([seg((), TRUE, e) for _, _, e in row])) for row in zip(*segl)])
            first = next((s for s in segl if len(s) == 1 and len(s[0][0]) == 1 and s[0][1] is TRUE), None)
            if first is not None:
                b = first[0][0][0]
                i = self.idx(b)
                elems = []
                for x, s in zip(xs, segl):
                    if s is first:
                        elems.append(s[0][2])
                    else:
                        elems.append(self.index(x, i))
                return seq([seg((b,), TRUE, seq([seg((), TRUE, e) for e in elems]))])
            return app('zip', *[self.freeze_arg(x) for x in xs])
        return lift(None, go, *[restrict(p, self.live) for p in pos])

    def freeze_arg(self, x):
        return self.content(x) if x.op == 'obj' and self.cell(x).kind != 'inst' else x

    def x_sorted(self, pos, kw, node):
        x = pos[0]
        key = self.ext_arg(kw['key']) if 'key' in kw else NONE
        rev = kw.get('reverse', FALSE)

        def go(l):
            if l.op in ('seq', 'obj', 'dct'):
                l = self.as_seq(l)
            if l.op == 'seq' and rev in (TRUE, FALSE) and all(
                    s.op == 'seg' and not s.args[0] and s.args[1] is TRUE for s in l.args[0]):
                elems = [s.args[2] for s in l.args[0]]
                keys = [self._constant(self.call(kw['key'], [e], {}, node) if 'key' in kw else e) for e in elems]
                if all(k is not None for k in keys):
                    try:
                        order = sorted(range(len(elems)), key=lambda i: keys[i], reverse=rev is TRUE)
                        return seq([seg((), TRUE, elems[i]) for i in order])
                    except TypeError:
                        pass
            ty = self.type_of(l)
            if isinstance(ty, tuple) and ty[0] == 'dict' and not (l.op == 'app' and l.args[0] == 'keys'):
                l = app('keys', l)
            return app('sorted', l, key, rev)
        return lift(None, go, x)

    def _constant(self, t):
        """(value,) of a constant term"""
        if t is TRUE or t is FALSE:
            return (t is TRUE,)
        if t.op == 'const' and isinstance(t.args[0], str):
            return (t.args[0],)
        if is_num(t):
            return (num_of(t),)
        if t.op == 'obj' and self.cell(t).kind == 'list':
            t = self.content(t)
        if t.op == 'seq' and all(s.op == 'seg' and not s.args[0] and s.args[1] is TRUE for s in t.args[0]):
            r = [self._constant(s.args[2]) for s in t.args[0]]
            return (tuple(x[0] for x in r),) if all(x is not None for x in r) else None
        return None

    def x_inspect_signature(self, pos, kw, node):
        def go(f):
            if f.op == 'bound':
                m, n = f.args[1].split(':')
                fi = self.prog.modules[m].classes[n].methods[f.args[2]]
                a = fi.node.args
                ps = a.posonlyargs + a.args
                ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
                out = list(zip(ps, ds))[1:] + list(zip(a.kwonlyargs, a.kw_defaults))
                return mk('sig', tuple((p.arg, self.ev_in(d, fi.module) if d is not None else mk('ext', 'inspect.Parameter.empty'))
                                       for p, d in out))
            return app('ext:inspect.signature', f)
        return self.dispatch(pos[0], go)

    def x_reversed(self, pos, kw, node):
        def go(l):
            segs = self.iter_segs(l)
            if all(not ch for ch, g, e in segs):
                return seq([seg(*s) for s in reversed(segs)])
            return app('reversed', l if l.op != 'obj' else self.content(l))
        return self.dispatch(pos[0], go)

    def x_sum(self, pos, kw, node):
        def go(x):
            ty = self.type_of(x)
            if x.op not in ('seq', 'obj', 'dct') and not (isinstance(ty, tuple) and ty[0] in ('list', 'set', 'dict')):
                return app('total', en._quote(x))
            tot = pos[1] if len(pos) > 1 else ZERO
            for ch, g, e in self.iter_segs(x):
                tot = add(tot, sum_over(ch, ite(g, e, ZERO)) if ch else ite(g, e, ZERO))
            return tot
        return self.dispatch(pos[0], go)

    def _boolsegs(self, x):
        return [(ch, g, self.truth(e)) for ch, g, e in self.iter_segs(x)]

    def x_any(self, pos, kw, node):
        def go(x):
            r = FALSE
            for ch, g, t in self._boolsegs(x):
                r = or_(r, exists(ch, and_(g, t)) if ch else and_(g, t))
            return r
        return self.dispatch(unq(pos[0]), go) if not en.is_bool_diagram(pos[0]) else atom(app('any', en._quote(pos[0])))

    def x_all(self, pos, kw, node):
        def go(x):
            r = TRUE
            for ch, g, t in self._boolsegs(x):
                bad = and_(g, not_(t))
                r = and_(r, not_(exists(ch, bad) if ch else bad))
            return r
        return self.dispatch(pos[0], go) if not en.is_bool_diagram(pos[0]) else atom(app('all', en._quote(pos[0])))

    def x_next(self, pos, kw, node):
        d = pos[1] if len(pos) > 1 else None

        def go(x):
            segs = self.iter_segs(x)
            res = d if d is not None else UNDEF
            for ch, g, e in reversed(segs):
                c = exists(ch, g) if ch else g
                res = ite(c, self._pick('first', ch, g, e) if ch else e, res)
            return res
        v = pos[0]
        if v.op == 'app' and v.args[0] == 'iter':
            v = v.args[1]
        r = self.dispatch(v, go)
        return r if not en._has_undef(r) or d is not None else restrict(r, or_(*[g for g, l in leaves(r) if l is not UNDEF]))

    def x_iter(self, pos, kw, node):
        return app('iter', self.as_seq(pos[0])) if pos[0].op != 'ite' else None

    def x_isinstance(self, pos, kw, node):
        return self.isinstance_(restrict(pos[0], self.live), pos[1])

    def x_getattr(self, pos, kw, node):
        if pos[1].op != 'const':
            return None
        name = pos[1].args[0]
        if len(pos) == 2:
            return self.get_attr(pos[0], name, node)

        def go(x):
            if x is NONE:
                return pos[2]
            if x.op == 'obj' and self.cell(x).kind == 'inst':
                c = self.cell(x)
                if name in c.attrs or c.cls.find(name) or c.cls.find_class_attr(name):
                    return self.get_attr(x, name, node)
                return pos[2]
            if x.op in ('annotated', 'cls'):
                known = name == '__metadata__' if x.op == 'annotated' else name in ('__name__', '__mro__') or self.cls_of(x).find(name)
                return self.get_attr(x, name, node) if known else pos[2]
            for c in self._classes_of(self.type_of(x)):
                if c.find(name) or name in [a for k in c.mro() for a in k.attr_types]:
                    return self.get_attr(x, name, node)
            return self.lift_app('getattr', x, pos[1], pos[2])
        return self.dispatch(pos[0], go)

    def x_hasattr(self, pos, kw, node):
        def go(x):
            if x.op == 'obj' and self.cell(x).kind == 'inst' and pos[1].op == 'const':
                c = self.cell(x)
                n = pos[1].args[0]
                return const(n in c.attrs or c.cls.find(n) is not None or c.cls.find_class_attr(n) is not None)
            return atom(app('hasattr', x, pos[1]))
        return lift(None, go, pos[0])

    def x_setattr(self, pos, kw, node):
        if pos[1].op == 'const':
            self.set_attr(pos[0], pos[1].args[0], pos[2], node)
            return NONE
        return None

    def x_dataclasses_is_dataclass(self, pos, kw, node):
        def go(x):
            if x.op == 'cls':
                return const(any(k.is_dataclass for k in self.cls_of(x).mro()))
            if x.op == 'annotated' or x.op == 'ext' and x.args[0].startswith('builtins.'):
                return FALSE
            if x.op == 'obj':
                c = self.cell(x)
                return const(c.kind == 'inst' and any(k.is_dataclass for k in c.cls.mro()))
            return atom(app('is_dataclass', x))
        return lift(None, go, pos[0])

    def x_dataclasses_fields(self, pos, kw, node):
        x = pos[0]
        if x.op == 'cls':
            return seq([seg((), TRUE, f) for f in self.fields(self.cls_of(x))])

    def x_str(self, pos, kw, node):
        return fmt_lifted(self, [pos[0]]) if pos else const('')

    def x_float(self, pos, kw, node):
        if self.number_tries and pos:  # somebody waits for the text that is no number
            def no_number(x):
                if x.op == 'const' and isinstance(x.args[0], str):
                    try:
                        float(x.args[0])
                    except ValueError:
                        return TRUE
                    return FALSE
                return FALSE if x.op == 'const' or self.type_of(x) in ('num', 'bool') else atom(app('nonumber', x))
            bad = lift(None, no_number, pos[0])
            if and_(self.live, bad) is not FALSE:
                self.raises.append((self.chain, and_(self.live, bad), app('exc:ValueError'), self.where(node)))
                self.live = and_(self.live, not_(bad))

    def x_bool(self, pos, kw, node):
        return self.truth(pos[0]) if pos else FALSE

    def x_list(self, pos, kw, node):
        if not pos:
            return self.new_list((), node)
        return self.dispatch(pos[0], lambda x: self.new_list([seg(*s) for s in self.iter_segs(x)], node))

    def x_tuple(self, pos, kw, node):
        if not pos:
            return seq(())
        return self.dispatch(pos[0], lambda x: seq([seg(*s) for s in self.iter_segs(x)]))

    def x_set(self, pos, kw, node):
        if not pos:
            return self.new_list((), node, 'set')
        return self.dispatch(pos[0], lambda x: self.new_list([seg(*s) for s in self.iter_segs(x)], node, 'set'))

    x_frozenset = x_set

    def x_dict(self, pos, kw, node):
        d = self.new_dict((), node)
        from .tables import _d_update, _put_seg
        if pos:
            for g, l in leaves(pos[0]):
                if l.op == 'seq' or (l.op == 'obj' and self.cell(l).kind == 'list'):
                    for ch, gg, e in self.iter_segs(l):
                        _put_seg(self, d, ch, and_(g, gg), self.index(e, ZERO), self.index(e, ONE))
                else:
                    saved = self.live
                    self.live = and_(saved, g)
                    _d_update(self, d, [l], {}, node)
                    self.live = saved
        _d_update(self, d, [], kw, node)
        return d

    def x_abs(self, pos, kw, node):
        return lift(None, lambda x: const(abs(num_of(x))) if is_num(x) else self._absn(x), pos[0])

    def _absn(self, x):
        q, negd = tm._norm_sign(x, True) if x.op == 'poly' else (x, False)
        if x.op == 'poly':
            p = tm._poly_of(x)
            items = sorted(p.items(), key=lambda mc: [(y.key, e) for y, e in mc[0]])
            lead = next((c for m, c in items if m), items[0][1])
            return mul(const(abs(lead)), app('abs', q))
        return app('abs', q)

    x_np_abs = x_np_absolute = x_abs

    def _minmax(self, name, pos, kw, node):
        if len(pos) == 1:
            def go(x):
                if x.op in ('seq', 'obj'):
                    s = self.as_seq(x)
                    if all(not q.args[0] and q.args[1] is TRUE for q in s.args[0] if q.op == 'seg') and not kw and s.args[0]:
                        return self._mm(name, [q.args[2] for q in s.args[0]])
                    extra = [mk('kw', k, self.ext_arg(v)) for k, v in sorted(kw.items())]
                    return app(name, s, *extra)
                return app(name, en._quote(x), *[mk('kw', k, self.ext_arg(v)) for k, v in sorted(kw.items())])
            return self.dispatch(pos[0], go)
        return lift(None, lambda *xs: self._mm(name, list(xs)), *pos)

    def _mm(self, name, xs):
        flat = []
        for x in xs:
            flat += list(x.args[1:]) if x.op == 'app' and x.args[0] == name + 'of' else [x]
        nums = [x for x in flat if is_num(x)]
        rest = sorted(set(x for x in flat if not is_num(x)))
        if nums:
            v = (min if name == 'min' else max)(num_of(x) for x in nums)
            if not rest:
                return const(v)
            rest = sorted(rest + [const(v)])
        return rest[0] if len(rest) == 1 else app(name + 'of', *rest)

    def x_min(self, pos, kw, node):
        return self._minmax('min', pos, kw, node)

    def x_max(self, pos, kw, node):
        return self._minmax('max', pos, kw, node)

    def x_np_minimum(self, pos, kw, node):
        return self._minmax('min', pos, kw, node) if not kw and len(pos) == 2 else None

    def x_np_maximum(self, pos, kw, node):
        return self._minmax('max', pos, kw, node) if not kw and len(pos) == 2 else None

    def _np1(name):
        def f(self, pos, kw, node):
            if kw or len(pos) != 1:
                return None
            x = self._arr(pos[0])
            if name != 'mean' and x.op == 'seq' and x.args[0] and all(
                    s.op == 'seg' and not s.args[0] and s.args[1] is TRUE and is_num(s.args[2]) for s in x.args[0]):
                return self._mm(name, [s.args[2] for s in x.args[0]])
            return self.lift_app(name, x)
        return f

    x_np_max = x_np_amax = _np1('max')
    x_np_min = x_np_amin = _np1('min')
    x_np_mean = _np1('mean')

    def _arr(self, t):
        if t.op == 'obj' and self.cell(t).kind != 'inst':
            return self.content(t)
        return t

    def x_np_sum(self, pos, kw, node):
        if kw or len(pos) != 1:
            return None
        if pos[0].op in ('obj', 'seq'):
            return self.x_sum(pos, kw, node)
        return self.lift_app('total', pos[0])

    def x_np_diff(self, pos, kw, node):
        if kw or len(pos) != 1:
            return None

        def steps(x):
            if x.op in ('obj', 'seq'):
                return self.lift_app('ext:np.diff', self.ext_arg(x))
            return sub(self.index(x, app('slice', ONE, NONE, NONE), node), self.index(x, app('slice', NONE, const(-1), NONE), node))
        return self.dispatch(pos[0], steps)

    def x_np_multiply(self, pos, kw, node):
        return mul(*pos)

    def x_np_add(self, pos, kw, node):
        return add(*pos)

    def x_np_subtract(self, pos, kw, node):
        return sub(*pos)

    def x_np_divide(self, pos, kw, node):
        return div(*pos)

    x_np_true_divide = x_np_divide

    def x_np_negative(self, pos, kw, node):
        return neg(pos[0])

    def x_np_asarray(self, pos, kw, node):
        if kw or len(pos) != 1:
            return None
        return pos[0]

    def x_np_atleast_1d(self, pos, kw, node):
        if kw or len(pos) != 1 or tm.KIND.get(pos[0]) != 'numpy.ndarray':
            return None
        return pos[0]

    def x_collections_Counter(self, pos, kw, node):
        """counts of listed values"""
        if kw or len(pos) != 1:
            return None
        segs = self.iter_segs(pos[0])
        if any(ch for ch, _, _ in segs):
            return None
        from .tables import put
        d = en.dct(())
        for _, g, e in segs:
            n = self.dict_get(d, e, ZERO)
            for other in [s for s in d.args[0] if s.args[2].args[0] is not e]:  # an equal value under another name
                k, v = other.args[2].args
                same = and_(g, eq(k, e))
                if same is not FALSE:
                    d = put(d, and_(other.args[1], same), k, add(v, ONE))
                    g = and_(g, not_(and_(other.args[1], same)))
            d = put(d, g, e, add(n, ONE))
        return self.new_dict(d.args[0], node)

    def x_np_isscalar(self, pos, kw, node):
        def go(x):
            if x.op in ('num',) or x.op in ('const', 'fmt') and x is not NONE:
                return TRUE
            if x is NONE or x.op in ('seq', 'obj', 'dct'):
                return FALSE
            if x.op == 'app' and x.args[0] == 'range':
                return FALSE
            if x.op == 'sym' and x in tm.KIND:
                return const(tm.KIND[x] in ('scalar', 'builtins.str'))
            return atom(app('isscalar', x))
        return lift(None, go, pos[0])

    def x_np_any(self, pos, kw, node):
        return self._anyall('any', pos, kw)

    def x_np_all(self, pos, kw, node):
        return self._anyall('all', pos, kw)

    def _anyall(self, name, pos, kw):
        if kw or len(pos) != 1:
            return None
        v = pos[0]
        if v in (TRUE, FALSE):
            return v
        if v.op == 'obj' or v.op == 'seq':
            return self.x_any(pos, kw, None) if name == 'any' else self.x_all(pos, kw, None)
        if en.is_bool_diagram(v):
            # any(not p) is not all(p)
            if name == 'all':
                return not_(atom(app('any', app('quoted', not_(v)))))
            return atom(app('any', app('quoted', v)))
        if name == 'all':
            return lift(None, lambda x: atom(app('all', x)), v)
        return lift(None, lambda x: atom(app('any', x)), v)

    def x_np_zeros(self, pos, kw, node):
        return self.lift_app('full', ZERO, *pos) if not kw else None

    def x_np_ones(self, pos, kw, node):
        return self.lift_app('full', ONE, *pos) if not kw else None

    def x_np_full(self, pos, kw, node):
        return self.lift_app('full', pos[1], pos[0]) if not kw and len(pos) == 2 else None

    def x_np_array(self, pos, kw, node):
        if kw or len(pos) != 1:
            return None
        return self.lift_app('array', self._arr(pos[0]))

    def x_np_arange(self, pos, kw, node):
        return self.x_range(pos, kw, node) if not kw else None

    def x_map(self, pos, kw, node):
        if len(pos) != 2:
            return None
        out = []
        for ch, g, e in self.iter_segs(pos[1]):
            saved = self.live, self.chain
            self.live, self.chain = and_(self.live, g), self.chain + ch
            v = self.call(pos[0], [e], {}, node)
            self.live, self.chain = saved
            out.append(seg(ch, g, v))
        return seq(out)

    def x_filter(self, pos, kw, node):
        out = []
        for ch, g, e in self.iter_segs(pos[1]):
            saved = self.live, self.chain
            self.live, self.chain = and_(self.live, g), self.chain + ch
            v = self.truth(e if pos[0] is NONE else self.call(pos[0], [e], {}, node))
            self.live, self.chain = saved
            out.append(seg(ch, and_(g, v), e))
        return seq(out)

    def x_callable(self, pos, kw, node):
        return atom(app('callable', pos[0])) if pos[0].op not in ('fn', 'closure', 'bound') else TRUE

    def x_type(self, pos, kw, node):
        if len(pos) != 1:
            return None

        def go(x):
            if x is NONE:
                return app('nonetype')
            if x.op == 'obj' and self.cell(x).kind == 'inst':
                c = self.cell(x).cls
                return mk('cls', f'{c.module.name}:{c.name}')
            return app('type', x)
        return lift(None, go, pos[0])

    def x_print(self, pos, kw, node):
        self.logs.append((self.chain, self.live, 'print', self.where(node), []))
        return NONE

    def x_functools_partial(self, pos, kw, node):
        return app('partial', *pos) if not kw else None

    def x_itertools_chain(self, pos, kw, node):
        return seq([seg(*s) for p in pos for s in self.iter_segs(p)])

    def x_itertools_chain_from_iterable(self, pos, kw, node):
        out = []
        for ch, g, e in self.iter_segs(pos[0]):
            saved = self.chain
            self.chain = saved + ch
            for ch2, g2, e2 in self.iter_segs(e):
                out.append(seg(ch + ch2, and_(g, g2), e2))
            self.chain = saved
        return seq(out)

    def x_copy_copy(self, pos, kw, node):
        def go(x):
            if x.op == 'obj' and self.cell(x).kind in ('dict', 'list', 'set'):
                return self.value_method(x, 'copy', [], {}, node)
            return app('ext:copy.copy', x)
        return self.dispatch(pos[0], go)

    def x_copy_deepcopy(self, pos, kw, node):
        return self.lift_app('deepcopy', *[self.freeze_arg(p) if p.op == 'obj' else p for p in pos])

    def x_set_union(self, pos, kw, node):
        return self.new_list([seg(*s) for p in pos for s in self.iter_segs(p)], node, 'set')


def unq(v):
    return v


def _replace(t, m):
    """replace markers that are not variables"""
    memo = {}

    def s(x):
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, s) if x.args else x
            memo[x] = r
        return r

    return s(t)


# -------------------------------------------------------------------- renormalisation after substitution
def _fmt_hook(parts):
    terms = [p for p in parts if isinstance(p, T)]

    def build(*vals):
        it = iter(vals)
        return fmt([next(it) if isinstance(p, T) else p for p in parts])
    return lift(None, build, *terms)


def _app_hook(f, *args):
    if f == 'quoted':
        v = args[0]
        return v if v in (TRUE, FALSE) else app('quoted', v)
    if f == 'isnone':
        return tm.eq(args[0], NONE)
    if f == 'eq':
        return tm.eq(*args)
    if f == 'truthy':
        def tr(x):
            if x.op == 'const':
                return const(bool(x.args[0]))
            if x.op == 'num':
                return const(x.args[0] != 0)
            if x in (TRUE, FALSE):
                return x
            if x.op in ('seq', 'dct'):
                r = FALSE
                for q in x.args[0]:
                    if q.op != 'seg':
                        return atom(app('truthy', x))
                    r = or_(r, exists(q.args[0], q.args[1]) if q.args[0] else q.args[1])
                return r
            return atom(app('truthy', x))
        return lift(None, tr, args[0])
    if f == 'range' and args[0].op == 'ite' or any(isinstance(a, T) and a.op == 'ite' and not en.is_bool_diagram(a) for a in args):
        return lift(None, lambda *xs: _app_hook(f, *xs), *[en._quote(a) for a in args])
    if f in ('minof', 'maxof'):
        return Machine._mm(None, f[:3], list(args))
    return app(f, *args)


tm.REBUILD[('fmt', None)] = _fmt_hook
tm.MINMAX['min'] = lambda xs: Machine._mm(None, 'min', xs)
tm.MINMAX['max'] = lambda xs: Machine._mm(None, 'max', xs)
tm.REBUILD[('app', None)] = _app_hook
tm.REBUILD[('exists', None)] = lambda bvs, g: exists(bvs, g)
tm.REBUILD[('sum', None)] = lambda bvs, g, e: sum_over(bvs, ite(g, e, ZERO))
tm.REBUILD[('attr', None)] = lambda b, n: lift(None, lambda x: mk('attr', x, n), b)
tm.REBUILD[('kw', None)] = lambda k, v: lift(None, lambda x: mk('kw', k, x), en._quote(v))
