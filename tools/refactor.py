#!/usr/bin/env python3
"""refactor.py OUT.jsonl [file.py ...]: stability of the obligations, measured on small edits of the source that keep its
behaviour (held in scratch copies, never in /repo). Every edit must leave every obligation quiet."""

import ast
import copy
import glob
import json
import multiprocessing
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from gai import spec  # noqa: E402
from gai.program import AnalysisBroken  # noqa: E402
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mutate  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = sorted(glob.glob(os.path.join(HERE, 'specs', '*.py')))


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def loads(n):
    return names(n, ast.Load)


def stores(n):
    out = names(n, (ast.Store, ast.Del))
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def jumps(stmts):
    """a statement that leaves the block: return, yield, or a break/continue of an outer loop"""
    def walk(n, loop):
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
            return True
        if isinstance(n, (ast.Break, ast.Continue)) and not loop:
            return True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        return any(walk(c, loop or isinstance(n, (ast.For, ast.While))) for c in ast.iter_child_nodes(n))
    return any(walk(s, False) for s in stmts)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def nm(x):
    return ast.Name(x, ast.Load())


def st(x):
    return ast.Name(x, ast.Store())


def assign(name, value):
    return ast.Assign([st(name)], value)


def terminal(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in inv:
        return ast.Compare(e.left, [inv[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


class Functions:
    """all functions of a module: (owner qualname, class node or None, function node)"""

    def __init__(self, tree):
        self.out = []
        for x in tree.body:
            if isinstance(x, ast.FunctionDef):
                self.out.append((x.name, None, x))
            elif isinstance(x, ast.ClassDef):
                for y in x.body:
                    if isinstance(y, ast.FunctionDef):
                        self.out.append((x.name + '.' + y.name, x, y))


def blocks(fn):
    """all statement lists of a function"""
    out = []

    def walk(stmts):
        out.append(stmts)
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    walk(b)
            for h in getattr(s, 'handlers', []):
                walk(h.body)
    body = fn.body
    walk(body)
    return out


def edits(tree):
    """list of (owner, operator, apply()), where apply changes `tree` in place"""
    out = []
    count = [0]

    def fresh(base):
        return f'{base}_'

    def rep(stmts, i, new, n=1):
        return lambda: stmts.__setitem__(slice(i, i + n), new())

    for owner, cls, fn in Functions(tree).out:
        if any(isinstance(d, ast.Name) and d.id == 'abstractmethod' for d in fn.decorator_list):
            continue
        start = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str) else 0
        local = stores(ast.Module(fn.body, [])) - set(params(fn))
        free_used = loads(fn) | stores(fn) | set(params(fn))
        isprop = bool(fn.decorator_list)

        def add(op, f, owner=owner):
            out.append((owner, op, f))

        # rename every local variable
        comp = set()
        if local and not has(fn, ast.FunctionDef) or True:
            def ren(fn=fn, local=set(local)):
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and x.id in local:
                        x.id = x.id + '_renamed'
                    if isinstance(x, ast.ExceptHandler) and x.name in local:
                        x.name += '_renamed'
                    if x is not fn and isinstance(x, ast.FunctionDef) and x.name in local:
                        x.name += '_renamed'
            if local and not has(fn, ast.Import, ast.ImportFrom):
                add('rename locals', ren)
        # alias self attributes used more than once and never stored in this function
        if not isprop and fn.args.args and fn.args.args[0].arg == 'self':
            attrs = {}
            stored = set()
            for x in ast.walk(fn):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    if isinstance(x.ctx, ast.Load):
                        attrs.setdefault(x.attr, []).append(x)
                    else:
                        stored.add(x.attr)
        for stmts in blocks(fn):
            base = start if stmts is fn.body else 0
            for i in range(base, len(stmts)):
                s = stmts[i]
                last = i == len(stmts) - 1
                # ---- statements
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    add('return via local', rep(stmts, i, lambda s=s: [assign('outcome', s.value), ast.Return(nm('outcome'))]))
                if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    add('ternary return', rep(stmts, i, lambda s=s: [ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])]))
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.IfExp):
                    add('ternary assign', rep(stmts, i, lambda s=s: [ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)],
                                                                          [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])]))
                if isinstance(s, ast.If):
                    if s.orelse:
                        def inv(s=s):
                            s.test, s.body, s.orelse = negate(s.test), s.orelse, s.body
                        add('invert if', inv)
                        if terminal(s.body):
                            add('drop else', rep(stmts, i, lambda s=s: [ast.If(s.test, s.body, [])] + s.orelse))
                        if (len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign)
                                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0])):
                            add('if to ternary', rep(stmts, i, lambda s=s: [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]))
                        if len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return):
                            add('if to ternary return', rep(stmts, i, lambda s=s: [ast.Return(ast.IfExp(s.test, s.body[0].value or ast.Constant(None), s.orelse[0].value or ast.Constant(None)))]))
                    else:
                        if terminal(s.body) and not last:
                            add('add else', lambda s=s, stmts=stmts, i=i: (setattr(s, 'orelse', stmts[i + 1:]), stmts.__delitem__(slice(i + 1, None))))
                        if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                            add('nest and', lambda s=s: (setattr(s, 'body', [ast.If(ast.BoolOp(ast.And(), s.test.values[1:]) if len(s.test.values) > 2 else s.test.values[1], s.body, [])]),
                                                         setattr(s, 'test', s.test.values[0])))
                        if last and stmts is fn.body and not terminal(s.body) and len(s.body) > 0:
                            add('guard return', rep(stmts, i, lambda s=s: [ast.If(negate(s.test), [ast.Return(None)], [])] + s.body))
                        if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                            add('merge ifs', lambda s=s: (setattr(s, 'test', ast.BoolOp(ast.And(), [s.test, s.body[0].test])), setattr(s, 'body', s.body[0].body)))
                        if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and terminal(s.body) and len(s.test.values) == 2:
                            add('split or', rep(stmts, i, lambda s=s: [ast.If(s.test.values[0], s.body, []), ast.If(s.test.values[1], copy.deepcopy(s.body), [])]))
                    add('test via local', rep(stmts, i, lambda s=s: [assign('condition', s.test), ast.If(nm('condition'), s.body, s.orelse)]))
                    if isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], (ast.Is, ast.IsNot)):
                        def isnot(s=s):
                            o = ast.Is() if isinstance(s.test.ops[0], ast.IsNot) else ast.IsNot()
                            s.test = ast.UnaryOp(ast.Not(), ast.Compare(s.test.left, [o], s.test.comparators))
                        add('not is', isnot)
                    if isinstance(s.test, ast.BoolOp):
                        def dem(s=s):
                            o = ast.And() if isinstance(s.test.op, ast.Or) else ast.Or()
                            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [negate(v) for v in s.test.values]))
                        add('de morgan', dem)
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.BinOp)):
                    add('expand augmented', rep(stmts, i, lambda s=s: [ast.Assign([st(s.target.id)], ast.BinOp(nm(s.target.id), s.op, s.value))]))
                if isinstance(s, ast.Assert):
                    add('assert to raise', rep(stmts, i, lambda s=s: [ast.If(negate(s.test), [ast.Raise(ast.Call(nm('AssertionError'), [s.msg] if s.msg else [], []), None)], [])]))
                if isinstance(s, ast.For) and not s.orelse:
                    add('iterable via local', rep(stmts, i, lambda s=s: [assign('items_', s.iter), ast.For(s.target, nm('items_'), s.body, [])]))
                    it = s.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
                        add('items to keys', rep(stmts, i, lambda s=s, it=it: [ast.For(s.target.elts[0], it.func.value, [ast.Assign([s.target.elts[1]], ast.Subscript(copy.deepcopy(it.func.value), nm(s.target.elts[0].id), ast.Load()))] + s.body, [])]))
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'values' and isinstance(s.target, ast.Name):
                        add('values to items', rep(stmts, i, lambda s=s, it=it: [ast.For(ast.Tuple([st('key_'), s.target], ast.Store()), ast.Call(ast.Attribute(it.func.value, 'items', ast.Load()), [], []), s.body, [])]))
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and not has(s, ast.Continue) and len(it.args) == 1:
                        add('manual counter', rep(stmts, i, lambda s=s, it=it: [assign('counter_', ast.Constant(0)), ast.For(s.target.elts[1], it.args[0],
                            [ast.Assign([s.target.elts[0]], nm('counter_'))] + s.body + [ast.AugAssign(st('counter_'), ast.Add(), ast.Constant(1))], [])]))
                    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'zip', 'range')):
                        add('for to enumerate', rep(stmts, i, lambda s=s, it=it: [ast.For(ast.Tuple([st('index_'), s.target], ast.Store()), ast.Call(nm('enumerate'), [it], []), s.body, [])]))
                    add('for over list', lambda s=s: setattr(s, 'iter', ast.Call(nm('list'), [s.iter], [])))
                    add('while next', rep(stmts, i, lambda s=s: [assign('queue_', ast.Call(nm('list'), [s.iter], [])), assign('at_', ast.Constant(0)),
                        ast.While(ast.Compare(nm('at_'), [ast.Lt()], [ast.Call(nm('len'), [nm('queue_')], [])]),
                                  [ast.Assign([s.target], ast.Subscript(nm('queue_'), nm('at_'), ast.Load())), ast.AugAssign(st('at_'), ast.Add(), ast.Constant(1))] + s.body, [])]))
                    # append loop to comprehension
                    if i > base and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == 'append':
                        tgt = s.body[0].value.func.value
                        add('append loop to extend', rep(stmts, i, lambda s=s, tgt=tgt: [ast.Expr(ast.Call(ast.Attribute(tgt, 'extend', ast.Load()),
                            [ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])], []))]))
                    if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and not has(s, ast.Break):
                        add('continue guard', lambda s=s: setattr(s, 'body', [ast.If(negate(s.body[0].test), [ast.Continue()], [])] + s.body[0].body))
                # comprehension to loop
                val = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
                if isinstance(val, (ast.ListComp, ast.DictComp, ast.SetComp)) and not (isinstance(s, ast.Assign) and (len(s.targets) > 1)):
                    def unroll(s=s, val=val):
                        if isinstance(val, ast.ListComp):
                            init, leaf = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(nm('collected'), 'append', ast.Load()), [val.elt], []))
                        elif isinstance(val, ast.SetComp):
                            init, leaf = ast.Call(nm('set'), [], []), ast.Expr(ast.Call(ast.Attribute(nm('collected'), 'add', ast.Load()), [val.elt], []))
                        else:
                            init, leaf = ast.Dict([], []), ast.Assign([ast.Subscript(nm('collected'), val.key, ast.Store())], val.value)
                        body = [leaf]
                        for g in reversed(val.generators):
                            for c in reversed(g.ifs):
                                body = [ast.If(c, body, [])]
                            body = [ast.For(g.target, g.iter, body, [])]
                        s.value = nm('collected')
                        return [assign('collected', init)] + body + [s]
                    add('comprehension to loop', rep(stmts, i, unroll))
                # aggregate over generator -> loop
                if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id in ('sum', 'any', 'all') and len(val.args) == 1 and isinstance(val.args[0], (ast.GeneratorExp, ast.ListComp)):
                    def agg(s=s, val=val):
                        g = val.args[0]
                        if val.func.id == 'sum':
                            init, leaf = ast.Constant(0), ast.AugAssign(st('total_'), ast.Add(), g.elt)
                        else:
                            init = ast.Constant(val.func.id == 'all')
                            leaf = ast.If(g.elt if val.func.id == 'any' else negate(g.elt), [ast.Assign([st('total_')], ast.Constant(val.func.id == 'any'))], [])
                        body = [leaf]
                        for q in reversed(g.generators):
                            for c in reversed(q.ifs):
                                body = [ast.If(c, body, [])]
                            body = [ast.For(q.target, q.iter, body, [])]
                        s.value = nm('total_')
                        return [assign('total_', init)] + body + [s]
                    add('aggregate to loop', rep(stmts, i, agg))
                # no-op statements
                add('noop', rep(stmts, i, lambda s=s: [ast.Assign([st('_unused')], ast.Constant(None)), s]))
                # arguments via locals: every argument, in order of evaluation (only when the callee is a plain name/attribute chain)
                call = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) else None
                if call is not None and not has(call, ast.Starred) and all(k.arg for k in call.keywords) and not has(call.func, ast.Call) and (call.args or call.keywords) and (ast.unparse(call.func) not in ('super',)):
                    def hoist(s=s, call=call):
                        pre = []
                        for j, a in enumerate(call.args):
                            pre.append(assign(f'arg{j}_', a))
                            call.args[j] = nm(f'arg{j}_')
                        for k in call.keywords:
                            pre.append(assign(f'{k.arg}_', k.value))
                            k.value = nm(f'{k.arg}_')
                        return pre + [s]
                    add('hoist arguments', rep(stmts, i, hoist))
                # swap two adjacent assignments to self attributes / names that do not depend on each other
                if i + 1 < len(stmts) and isinstance(s, ast.Assign) and isinstance(stmts[i + 1], ast.Assign):
                    t = stmts[i + 1]

                    def simple(e):
                        return not has(e, ast.Call, ast.Subscript, ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)

                    def key(x):
                        return {ast.unparse(y) for y in x.targets}
                    reads_t = {ast.unparse(x) for x in ast.walk(t.value) if isinstance(x, (ast.Name, ast.Attribute))}
                    reads_s = {ast.unparse(x) for x in ast.walk(s.value) if isinstance(x, (ast.Name, ast.Attribute))}
                    if simple(s.value) and simple(t.value) and not key(s) & reads_t and not key(t) & reads_s and not key(s) & key(t) and not any(has(x, ast.Subscript) for x in s.targets + t.targets):
                        add('swap assignments', lambda stmts=stmts, i=i: stmts.__setitem__(slice(i, i + 2), [stmts[i + 1], stmts[i]]))
                # super().m(...) -> Base.m(self, ...)
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Call) and ast.unparse(s.value.func.value) == 'super()' and cls is not None and len(cls.bases) == 1:
                    def direct(s=s, cls=cls):
                        s.value.func.value = copy.deepcopy(cls.bases[0])
                        s.value.args.insert(0, nm('self'))
                    add('explicit base call', direct)
            # ---- extract a run of statements into a helper
            for i in range(base, len(stmts)):
                for n in (1, 2, 3, 4, 6, 9, 14):
                    if i + n > len(stmts) or (n == 1 and isinstance(stmts[i], (ast.Pass, ast.Import))):
                        continue
                    if n not in (1, 2) and (i - base) % n:
                        continue
                    part = stmts[i:i + n]
                    tail_return = stmts is fn.body and i + n == len(stmts) and isinstance(part[-1], ast.Return) and not jumps(part[:-1])
                    if has(ast.Module(part, []), ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Lambda) and any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) for x in part):
                        continue
                    if 'super()' in ast.unparse(ast.Module(part, [])):
                        continue
                    if jumps(part) and not tail_return:
                        continue
                    if n == 1 and isinstance(part[0], ast.Expr) and isinstance(part[0].value, ast.Constant):
                        continue
                    if n == 1 and isinstance(part[0], ast.Assign) and not has(part[0], ast.Call):
                        continue
                    mod = ast.Module(part, [])
                    compnames = set()
                    for x in ast.walk(mod):
                        if isinstance(x, ast.comprehension):
                            compnames |= stores(x.target)
                    written = {x for x in stores(mod)} - compnames
                    used = (loads(mod) & (local | set(params(fn)))) | (written & set())
                    # what is read before (or maybe without) being written inside is an argument
                    first_only = set()
                    if len(part) and isinstance(part[0], ast.Assign):
                        pass
                    argnames = []
                    known = set(params(fn))
                    # names surely assigned before position i at this block level or in enclosing blocks are hard; approximate with textual order
                    line = part[0].lineno
                    before = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and (x.lineno, x.col_offset) < (line, part[0].col_offset)} | known
                    argnames = sorted((loads(mod) | {x.target.id for x in ast.walk(mod) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}) & before - compnames)
                    # (a name bound on one branch only would make the extraction unsound)
                    def surely(name):
                        if name in known:
                            return True
                        # assigned by a statement on the path of blocks that contains this one, or by the loop around it
                        def path(b):
                            if b is stmts:
                                return []
                            for s2 in b:
                                for f in ('body', 'orelse', 'finalbody'):
                                    c = getattr(s2, f, None)
                                    if isinstance(c, list) and c and isinstance(c[0], ast.stmt):
                                        r = path(c)
                                        if r is not None:
                                            return [(b, s2)] + r
                                for h in getattr(s2, 'handlers', []):
                                    r = path(h.body)
                                    if r is not None:
                                        return [(b, s2)] + r
                            return None
                        def binds(s2):
                            if isinstance(s2, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                                return name in stores(s2)
                            if isinstance(s2, ast.If):
                                return (any(map(binds, s2.body)) or terminal(s2.body)) and (any(map(binds, s2.orelse)) or terminal(s2.orelse)) and name in stores(s2)
                            if isinstance(s2, ast.With):
                                return name in stores(s2)
                            return False
                        p = path(fn.body) or []
                        for b, s2 in p:
                            if isinstance(s2, ast.For) and name in stores(s2.target):
                                return True
                            if isinstance(s2, ast.With) and name in {y for w in s2.items if w.optional_vars for y in stores(w.optional_vars)}:
                                return True
                            if any(binds(x) for x in b[:b.index(s2)]):
                                return True
                        return any(binds(x) for x in stmts[:i])
                    if not all(surely(a) for a in argnames):
                        continue
                    after = set()
                    inpart = {id(x) for p in part for x in ast.walk(p)}
                    inloop = any(isinstance(x, (ast.For, ast.While)) and any(id(y) in inpart for y in ast.walk(x)) and id(x) not in inpart for x in ast.walk(fn))
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inpart and ((x.lineno, x.col_offset) > (line, 0) or inloop):
                            after.add(x.id)
                    results = sorted(written & after)
                    # every result must surely be bound by the part (or be an argument)
                    def pbinds(name, b):
                        for s2 in b:
                            if isinstance(s2, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and name in stores(s2):
                                return True
                            if isinstance(s2, ast.If) and s2.orelse and pbinds(name, s2.body) and pbinds(name, s2.orelse):
                                return True
                        return False
                    if not all(pbinds(r, part) or r in argnames for r in results):
                        continue
                    static = isprop and any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list)
                    for style in ('method', 'function'):
                        if style == 'method' and (cls is None or 'self' not in params(fn)):
                            continue
                        if style == 'function' and cls is not None and n in (2, 6):
                            continue
                        if style == 'function' and any(isinstance(x, ast.Name) and x.id.startswith('__') for x in ast.walk(mod)):
                            continue

                        def extract(stmts=stmts, i=i, n=n, argnames=argnames, results=results, style=style, cls=cls, fn=fn, tail_return=tail_return):
                            part = stmts[i:i + n]
                            args = [a for a in argnames if not (style == 'method' and a == 'self')]
                            body = list(part)
                            if not tail_return and results:
                                body.append(ast.Return(nm(results[0]) if len(results) == 1 else ast.Tuple([nm(r) for r in results], ast.Load())))
                            name = '_extracted_step'
                            a = ast.arguments([], [ast.arg(x) for x in (['self'] if style == 'method' else []) + args], None, [], [], None, [])
                            f = ast.FunctionDef(name, a, body, [], None)
                            call = ast.Call(ast.Attribute(nm('self'), name, ast.Load()) if style == 'method' else nm(name), [nm(x) for x in args], [])
                            if tail_return:
                                new = [ast.Return(call)]
                            elif len(results) == 1:
                                new = [assign(results[0], call)]
                            elif results:
                                new = [ast.Assign([ast.Tuple([st(r) for r in results], ast.Store())], call)]
                            else:
                                new = [ast.Expr(call)]
                            stmts[i:i + n] = new
                            if style == 'method':
                                cls.body.insert(cls.body.index(fn) + 1, f)
                            else:
                                tree.body.append(f)
                        add(f'extract {style} {n}', extract)
        # ---- expressions
        for x in ast.walk(fn):
            for f, v in ast.iter_fields(x):
                if f in ('annotation', 'returns', 'decorator_list'):
                    continue
                for j, e in enumerate(v if isinstance(v, list) else [v]):
                    if not isinstance(e, ast.expr):
                        continue

                    def put(new, x=x, f=f, v=v, j=j):
                        def go():
                            if isinstance(v, list):
                                v[j] = new()
                            else:
                                setattr(x, f, new())
                        return go
                    if isinstance(e, ast.JoinedStr) and not isinstance(x, (ast.FormattedValue, ast.JoinedStr)) and all(isinstance(p, ast.Constant) or (p.conversion == -1 and p.format_spec is None) for p in e.values):
                        def fmt(e=e):
                            t = ''.join(p.value.replace('{', '{{').replace('}', '}}') if isinstance(p, ast.Constant) else '{}' for p in e.values)
                            return ast.Call(ast.Attribute(ast.Constant(t), 'format', ast.Load()), [p.value for p in e.values if not isinstance(p, ast.Constant)], [])
                        add('f-string to format', put(fmt))
                        add('f-string to sum', put(lambda e=e: __import__('functools').reduce(lambda a, b: ast.BinOp(a, ast.Add(), b), [p if isinstance(p, ast.Constant) else ast.Call(nm('str'), [p.value], []) for p in e.values])))
                    if isinstance(e, ast.Compare) and len(e.ops) == 1:
                        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
                        if type(e.ops[0]) in flip:
                            add('flip comparison', put(lambda e=e, flip=flip: ast.Compare(e.comparators[0], [flip[type(e.ops[0])]()], [e.left])))
                        if isinstance(e.ops[0], ast.NotIn):
                            add('not in', put(lambda e=e: ast.UnaryOp(ast.Not(), ast.Compare(e.left, [ast.In()], e.comparators))))
                        if isinstance(e.ops[0], ast.In) and isinstance(e.comparators[0], (ast.List, ast.Tuple)):
                            add('in to or', put(lambda e=e: ast.BoolOp(ast.Or(), [ast.Compare(e.left, [ast.Eq()], [y]) for y in e.comparators[0].elts]) if len(e.comparators[0].elts) > 1 else ast.Compare(e.left, [ast.Eq()], e.comparators[0].elts)))
                    if isinstance(e, ast.Compare) and len(e.ops) == 2 and not has(e.comparators[0], ast.Call):
                        add('split chain', put(lambda e=e: ast.BoolOp(ast.And(), [ast.Compare(e.left, [e.ops[0]], [e.comparators[0]]), ast.Compare(copy.deepcopy(e.comparators[0]), [e.ops[1]], [e.comparators[1]])])))
                    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and not isinstance(e.left, (ast.Constant, ast.List)) and not isinstance(e.right, (ast.List,)):
                        add('commute product', put(lambda e=e: ast.BinOp(e.right, ast.Mult(), e.left)))
                    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub):
                        add('minus to plus', put(lambda e=e: ast.BinOp(e.left, ast.Add(), ast.UnaryOp(ast.USub(), e.right))))
                    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and not isinstance(e.operand, ast.Constant):
                        add('minus one times', put(lambda e=e: ast.BinOp(ast.Constant(-1), ast.Mult(), e.operand)))
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2 and isinstance(e.args[1], ast.Tuple):
                        add('isinstance or', put(lambda e=e: ast.BoolOp(ast.Or(), [ast.Call(nm('isinstance'), [e.args[0], t], []) for t in e.args[1].elts])))
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and isinstance(e.args[0], ast.GeneratorExp):
                        add('list in any/all', lambda e=e: e.args.__setitem__(0, ast.ListComp(e.args[0].elt, e.args[0].generators)))
                        other = 'all' if e.func.id == 'any' else 'any'
                        add('any/all dual', put(lambda e=e, other=other: ast.UnaryOp(ast.Not(), ast.Call(nm(other), [ast.GeneratorExp(negate(e.args[0].elt), e.args[0].generators)], []))))
                    if isinstance(e, ast.ListComp) and isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('sum', 'list', 'tuple', 'max', 'min', 'set', 'sorted'):
                        add('generator argument', put(lambda e=e: ast.GeneratorExp(e.elt, e.generators)))
                    if isinstance(e, ast.Dict) and e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in e.keys):
                        add('dict call', put(lambda e=e: ast.Call(nm('dict'), [], [ast.keyword(k.value, y) for k, y in zip(e.keys, e.values)])))
                    if isinstance(e, ast.Dict) and len(e.keys) > 1 and None not in e.keys:
                        add('dict unpack', put(lambda e=e: ast.Dict([None, None], [ast.Dict(e.keys[:1], e.values[:1]), ast.Dict(e.keys[1:], e.values[1:])])))
                    if isinstance(e, ast.List) and isinstance(e.ctx, ast.Load) and len(e.elts) == 2 and not has(e, ast.Starred):
                        add('list sum', put(lambda e=e: ast.BinOp(ast.List(e.elts[:1], ast.Load()), ast.Add(), ast.List(e.elts[1:], ast.Load()))))
                    if isinstance(e, ast.Lambda) and not isinstance(x, ast.keyword):
                        pass
                    if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and isinstance(e.value, ast.Name) and e.value.id == 'self' and isinstance(x, ast.Attribute):
                        pass
                    if isinstance(e, ast.Constant) and isinstance(e.value, float) and not isinstance(x, ast.UnaryOp):
                        def const(e=e, put=put):
                            put(lambda: nm('_MODULE_CONSTANT'))()
                            k = 0
                            for k, s0 in enumerate(tree.body):
                                if isinstance(s0, (ast.FunctionDef, ast.ClassDef)):
                                    break
                            tree.body.insert(k, assign('_MODULE_CONSTANT', e))
                        add('module constant', const)
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and len(e.args) == 2 and isinstance(e.args[1], ast.Constant) and not has(e.func.value, ast.Call):
                        add('get to test', put(lambda e=e: ast.IfExp(ast.Compare(e.args[0], [ast.In()], [e.func.value]), ast.Subscript(copy.deepcopy(e.func.value), copy.deepcopy(e.args[0]), ast.Load()), e.args[1])))
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'keys' and not e.args:
                        add('drop keys()', put(lambda e=e: e.func.value) if isinstance(x, (ast.For, ast.comprehension)) else put(lambda e=e: ast.Call(nm('list'), [e.func.value], [])))
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and isinstance(x, ast.Compare) and len(x.comparators) == 1 and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value == 0 and e is x.left:
                        pass
        # alias of self.<attr>
        if not isprop and params(fn) and params(fn)[0] == 'self' and not has(fn, ast.Lambda):
            for attr, uses in sorted(attrs.items()):
                if attr in stored or len(uses) < 2:
                    continue
                par = {id(c): p for p in ast.walk(fn) for c in ast.iter_child_nodes(p)}
                if any(isinstance(par[id(u)], ast.Call) and par[id(u)].func is u for u in uses):
                    continue
                if fn.name == '__init__':
                    continue
                # evaluated first in the body: only sound when the first statement reads it anyway
                first = fn.body[start]
                if isinstance(first, (ast.If, ast.For, ast.While, ast.Try)):
                    first = getattr(first, 'test', getattr(first, 'iter', None))
                if first is None or not any(u in list(ast.walk(first)) for u in uses):
                    continue

                def alias(fn=fn, attr=attr, uses=uses, start=start, par=par):
                    for u in uses:
                        p = par[id(u)]
                        for f, v in ast.iter_fields(p):
                            if isinstance(v, list):
                                for j, c in enumerate(v):
                                    if c is u:
                                        v[j] = nm('aliased_')
                            elif v is u:
                                setattr(p, f, nm('aliased_'))
                    fn.body.insert(start, assign('aliased_', ast.Attribute(nm('self'), attr, ast.Load())))
                add(f'alias self.{attr}', alias)
    return out


def edited(path, k):
    with open(path, encoding='utf-8') as fh:
        tree = ast.parse(fh.read())
    owner, op, f = edits(tree)[k]
    before = ast.unparse(tree)
    f()
    ast.fix_missing_locations(tree)
    after = ast.unparse(tree)
    import difflib
    d = [x for x in difflib.unified_diff(before.split('\n'), after.split('\n'), n=0, lineterm='') if x[:2] not in ('--', '++', '@@')]
    compile(after, path, 'exec')
    return owner, op, '\n'.join(d)[:1500], after


_state = mutate._state


def run(job):
    rel, k = job
    path = os.path.join(REPO, 'flixOpt', rel)
    try:
        owner, op, d, text = edited(path, k)
    except (SyntaxError, ValueError) as e:
        return dict(file=rel, k=k, owner='', op='', diff=repr(e), status='skipped', why=[])
    rec = dict(file=rel, k=k, owner=owner, op=op, diff=d)
    keys = _state['map'].get(f'{rel} {owner}', [])
    if not keys:
        return dict(rec, status='uncovered', why=[])
    link = os.path.join(_state['dir'], 'flixOpt', rel)
    os.remove(link)
    with open(link, 'w') as fh:
        fh.write(text)
    why = []
    try:
        prog = spec.SpecProgram(_state['dir'], FILES)
        for d in prog.obligations:
            key = d['property'] + '|' + d['name']
            if key not in keys:
                continue
            try:
                diffs, stt, a, b = spec.run_obligation(prog, d)
                if diffs:
                    why.append(('gaveup' if all(x.broken() for x in diffs) else 'alarm', key, str(diffs[0])[:300]))
            except Exception as e:
                why.append(('gaveup', key, repr(e)[:300]))
    except AnalysisBroken as e:
        why.append(('gaveup', '', repr(e)[:300]))
    finally:
        os.remove(link)
        os.symlink(path, link)
    return dict(rec, status='quiet' if not why else 'alarm' if any(w[0] == 'alarm' for w in why) else 'gaveup', why=why)


def main():
    out = sys.argv[1]
    os.makedirs('/tmp/mut', exist_ok=True)
    prog = spec.SpecProgram(REPO, FILES)
    touched = {}
    for d in prog.obligations:
        diffs, s, (ipa, a), b = spec.run_obligation(prog, d)
        for w in ipa.touched:
            if w.startswith('flixOpt/'):
                loc, q = w.split(' ', 1)
                touched.setdefault(f'{loc.split(":")[0][8:]} {q}', []).append(d['property'] + '|' + d['name'])
    json.dump(touched, open('/tmp/mut/touched.json', 'w'))
    jobs = []
    only = os.environ.get('ONLY', '').split(',') if os.environ.get('ONLY') else None
    step = int(os.environ.get('STEP', '1'))
    for rel in sys.argv[2:] or sorted(f for f in os.listdir(os.path.join(REPO, 'flixOpt')) if f.endswith('.py')):
        with open(os.path.join(REPO, 'flixOpt', rel), encoding='utf-8') as fh:
            e = edits(ast.parse(fh.read()))
        jobs += [(rel, k) for k, (o, op, _) in enumerate(e) if only is None or any(op.startswith(x) for x in only)]
    jobs = jobs[::step]
    if os.environ.get('AGAIN'):  # only the edits that were not quiet in an earlier run
        rows = map(json.loads, open(os.environ['AGAIN']))
        jobs = [(r['file'], r['k']) for r in rows if r['status'] in ('alarm', 'gaveup')]
    print(len(jobs), 'edits', flush=True)
    count = {}
    with multiprocessing.Pool(int(os.environ.get("J", "6")), mutate.init, maxtasksperchild=12) as pool, open(out, 'w') as fh:
        for r in pool.imap_unordered(run, jobs, chunksize=4):
            fh.write(json.dumps(r) + '\n')
            fh.flush()
            count[r['status']] = count.get(r['status'], 0) + 1
    print(count)
    for d in glob.glob('/tmp/mut/mut*'):
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
