#!/usr/bin/env python3
"""mutate.py OUT.jsonl [file.py ...]: sensitivity of the obligations, measured on small edits of the source held in
scratch copies (never in /repo). For every edit: does some obligation that analyses the edited function notice it?"""

import ast
import copy
import glob
import json
import multiprocessing
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from gai import spec  # noqa: E402
from gai.program import AnalysisBroken  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = sorted(glob.glob(os.path.join(HERE, 'specs', '*.py')))
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Add,
       ast.FloorDiv: ast.Div}
ANT = [('inputs', 'outputs'), ('minimum', 'maximum'), ('min', 'max'), ('lower', 'upper'), ('operation', 'invest'), ('any', 'all'),
       ('charging', 'discharging'), ('charge', 'discharge'), ('eta_c', 'eta_d'), ('eta_th', 'eta_el'), ('Q_th', 'P_el'),
       ('lower_bound', 'upper_bound'), ('minimum_size', 'maximum_size'), ('on_hours_total_min', 'on_hours_total_max'),
       ('consecutive_on_hours_min', 'consecutive_on_hours_max'), ('consecutive_off_hours_min', 'consecutive_off_hours_max'),
       ('minimum_operation', 'maximum_operation'), ('minimum_invest', 'maximum_invest'), ('minimum_total', 'maximum_total'),
       ('minimum_operation_per_hour', 'maximum_operation_per_hour'), ('in1', 'in2'), ('out1', 'out2'), ('start', 'end'),
       ('hours_of_last_time_step', 'hours_of_previous_time_steps'), ('relative_minimum', 'relative_maximum'),
       ('flow_rates_min', 'flow_rates_max'), ('switch_on', 'switch_off'), ('on', 'off'), ('np.minimum', 'np.maximum'),
       ('isel', 'sel'), ('append', 'extend'), ('label', 'label_full'), ('first', 'last'), ('active_data', 'stored_data')]
OTHER = {}
for a, b in ANT:
    OTHER[a], OTHER[b] = b, a


def silent(n):
    """message text and log calls carry no property"""
    return isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and
                                        ast.unparse(n.value.func).startswith(('logger.', 'logging.', 'warnings.', 'print')))


def sites(tree):
    """(owner qualname or None, path of the node, field, index, list of (operator, replacement))"""
    out = []

    def walk(n, owner, cls):
        if isinstance(n, (ast.FunctionDef,)):
            if owner is None:
                owner = (cls + '.' if cls else '') + n.name
            body = n.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                muts(d, owner)
                walk(d, owner, cls)
            for x in body:
                muts(x, owner)
                walk(x, owner, cls)
            return
        if isinstance(n, ast.ClassDef):
            for x in n.body:
                if isinstance(x, ast.Expr):
                    continue
                walk(x, None, n.name)
            return
        if silent(n):
            if isinstance(n, ast.Raise):
                return
            return
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'decorator_list', 'type_comment', 'msg'):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    muts(c, owner)
                    walk(c, owner, cls)

    def add(n, owner, op, fn):
        out.append((owner, n, op, fn))

    def muts(n, owner):
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in SWAP:
                    add(n, owner, 'compare', lambda m, i=i: m.ops.__setitem__(i, SWAP[type(m.ops[i])]()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, owner, 'arith', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add(n, owner, 'augarith', lambda m: setattr(m, 'op', BIN[type(m.op)]()))
            add(n, owner, 'delete', 'DEL')
        elif isinstance(n, ast.BoolOp):
            add(n, owner, 'boolop', lambda m: setattr(m, 'op', ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
            for i in range(len(n.values)):
                add(n, owner, f'drop operand {i}', lambda m, i=i: m.values.pop(i))
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                add(n, owner, 'not', ('REPL', lambda m: m.operand))
            elif isinstance(n.op, ast.USub):
                add(n, owner, 'minus', ('REPL', lambda m: m.operand))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, owner, 'flip', lambda m: setattr(m, 'value', not m.value))
            elif isinstance(v, int):
                add(n, owner, 'const+1', lambda m: setattr(m, 'value', m.value + 1))
            elif isinstance(v, float):
                add(n, owner, 'const*1.1', lambda m: setattr(m, 'value', m.value * 1.1 + 0.01))
            elif isinstance(v, str):
                add(n, owner, 'text', lambda m: setattr(m, 'value', m.value + 'X'))
            elif v is None:
                add(n, owner, 'none->0', lambda m: setattr(m, 'value', 0))
        elif isinstance(n, ast.If):
            add(n, owner, 'if True', lambda m: setattr(m, 'test', ast.Constant(True)))
            add(n, owner, 'if False', lambda m: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, ast.IfExp):
            add(n, owner, 'ifexp', lambda m: (lambda a, b: (setattr(m, 'body', b), setattr(m, 'orelse', a)))(m.body, m.orelse))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not silent(n):
            add(n, owner, 'delete', 'DEL')
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not isinstance(t, ast.Name):
                add(n, owner, 'delete', 'DEL')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            add(n, owner, 'return None', lambda m: setattr(m, 'value', ast.Constant(None)))
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, owner, 'jump', 'DEL')
        elif isinstance(n, ast.Assert):
            add(n, owner, 'delete assert', 'DEL')
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                if n.keywords[i].arg is not None:
                    add(n, owner, f'drop {n.keywords[i].arg}', lambda m, i=i: m.keywords.pop(i))
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                add(n, owner, 'swap args', lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, ast.Attribute) and n.attr in OTHER:
            add(n, owner, f'{n.attr}->{OTHER[n.attr]}', lambda m: setattr(m, 'attr', OTHER[m.attr]))
        if isinstance(n, ast.Name) and n.id in OTHER:
            add(n, owner, f'{n.id}->{OTHER[n.id]}', lambda m: setattr(m, 'id', OTHER[m.id]))
        if isinstance(n, ast.Raise):
            add(n, owner, 'no raise', 'DEL')

    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            walk(x, None, None)
    return out


class Apply(ast.NodeTransformer):
    def __init__(self, target, fn):
        self.target, self.fn = target, fn

    def visit(self, n):
        if n is self.target:
            if self.fn == 'DEL':
                return ast.copy_location(ast.Pass(), n)
            if isinstance(self.fn, tuple):
                return self.fn[1](n)
            self.fn(n)
            return n
        return self.generic_visit(n)


def mutant(path, k):
    with open(path, encoding='utf-8') as fh:
        tree = ast.parse(fh.read())
    owner, node, op, fn = sites(tree)[k]
    line = node.lineno if hasattr(node, 'lineno') else 0
    stmt = ast.unparse(node)[:90]
    tree = Apply(node, fn).visit(tree)
    ast.fix_missing_locations(tree)
    new = ast.unparse(node)[:90] if fn != 'DEL' and not isinstance(fn, tuple) else ''
    return owner, line, op, stmt, new, ast.unparse(tree)


_state = {}


def init():
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    os.mkdir(os.path.join(d, 'flixOpt'))
    for f in os.listdir(os.path.join(REPO, 'flixOpt')):
        if f.endswith('.py'):
            os.symlink(os.path.join(REPO, 'flixOpt', f), os.path.join(d, 'flixOpt', f))
    _state['dir'] = d
    _state['map'] = json.load(open('/tmp/mut/touched.json'))


def run(job):
    rel, k = job
    path = os.path.join(REPO, 'flixOpt', rel)
    owner, line, op, stmt, new, text = mutant(path, k)
    rec = dict(file=rel, k=k, owner=owner, line=line, op=op, was=stmt, now=new)
    names = None
    if owner is not None:
        names = _state['map'].get(f'{rel} {owner}', [])
        if not names:
            return dict(rec, status='uncovered')
    link = os.path.join(_state['dir'], 'flixOpt', rel)
    os.remove(link)
    with open(link, 'w') as fh:
        fh.write(text)
    gave = 0
    by = []
    try:
        prog = spec.SpecProgram(_state['dir'], FILES)
        for d in prog.obligations:
            key = d['property'] + '|' + d['name']
            if names is not None and key not in names:
                continue
            try:
                diffs, st, a, b = spec.run_obligation(prog, d)
                if diffs and not all(x.broken() for x in diffs):
                    by.append(key)
                    break
                if diffs:
                    gave += 1
            except Exception as e:
                gave += 1
    except AnalysisBroken as e:
        gave += 1
    finally:
        os.remove(link)
        os.symlink(path, link)
    return dict(rec, status='caught' if by else 'gaveup' if gave else 'missed', by=by, n=len(names or []))


def main():
    out = sys.argv[1]
    os.makedirs('/tmp/mut', exist_ok=True)
    prog = spec.SpecProgram(REPO, FILES)
    touched = {}
    for d in prog.obligations:
        diffs, st, (ipa, a), b = spec.run_obligation(prog, d)
        for w in ipa.touched:
            if w.startswith('flixOpt/'):
                loc, q = w.split(' ', 1)
                touched.setdefault(f'{loc.split(":")[0][8:]} {q}', []).append(d['property'] + '|' + d['name'])
    json.dump(touched, open('/tmp/mut/touched.json', 'w'))
    jobs = []
    rels = sys.argv[2:] or sorted(f for f in os.listdir(os.path.join(REPO, 'flixOpt')) if f.endswith('.py'))
    for rel in rels:
        with open(os.path.join(REPO, 'flixOpt', rel), encoding='utf-8') as fh:
            jobs += [(rel, k) for k in range(len(sites(ast.parse(fh.read()))))]
    print(len(jobs), 'edits')
    count = {}
    with multiprocessing.Pool(7, init, maxtasksperchild=12) as pool, open(out, 'w') as fh:
        for r in pool.imap_unordered(run, jobs, chunksize=4):
            fh.write(json.dumps(r) + '\n')
            count[r['status']] = count.get(r['status'], 0) + 1
    print(count)
    for d in glob.glob('/tmp/mut/mut*'):
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
