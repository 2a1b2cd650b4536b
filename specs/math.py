"""The mathematical core: summands, lengths, translation to the modelling language, results"""
from typing import List, Optional
from flixOpt.math_modeling import (CbcSolver, CplexSolver, Equation, GlpkSolver, GurobiSolver, HighsSolver, Inequation,
                                   MathModel, PyomoModel, Solver, Summand, SumOfSummand, Variable, VariableTS)
from flixOpt import utils
from flixOpt.structure import SystemModel
from flixOpt.utils import as_vector
import numpy as np
import pyomo.environ as pyo

RAW = dict(raw=True, may_fail=False)
REGISTER = ['PyomoModel._register_pyomo_comp']

OBLIGATIONS = [
    dict(property='C17', name='variables reach the solver', impl='impl_variable', spec='spec_variable', raw=True,
         anchor='PyomoModel.translate_variable', opaque=REGISTER + ['as_vector'], may_fail=False),
    dict(property='C17', name='equations reach the solver', impl='impl_equation', spec='spec_equation', raw=True,
         anchor='PyomoModel.translate_equation', opaque=REGISTER + ['as_vector', 'PyomoModel._summand_math_expression'],
         may_fail=False),
    dict(property='C17', name='inequations reach the solver', impl='impl_inequation', spec='spec_inequation', raw=True,
         anchor='PyomoModel.translate_inequation', opaque=REGISTER + ['as_vector', 'PyomoModel._summand_math_expression'],
         may_fail=False),
    dict(property='C17', name='the objective is minimised', impl='impl_objective', spec='spec_objective', raw=True,
         anchor='PyomoModel.translate_objective', opaque=['PyomoModel._summand_math_expression'],
         observe=['effects', 'rejects']),
    dict(property='C17', name='everything of the model is translated', impl='impl_translate', spec='spec_translate', raw=True,
         anchor='PyomoModel.translate_model', opaque=['PyomoModel.translate_variable', 'PyomoModel.translate_equation',
                                                      'PyomoModel.translate_inequation', 'PyomoModel.translate_objective'],
         effects=['PyomoModel.*'], ordered=False, may_fail=False),
    dict(property='C17', name='components are registered under their own name', impl='impl_register', spec='spec_register',
         raw=True, anchor='PyomoModel._register_pyomo_comp', may_fail=False),
    dict(property='C17', name='parts of a model', impl='impl_parts', spec='spec_parts', raw=True, anchor='MathModel.add',
         effects=[], observe=['return', 'rejects']),
    dict(property='C17', also=['C22', 'C20'], name='many parts of a model', impl='impl_many_parts', spec='spec_many_parts', raw=True,
         anchor='MathModel.add', effects=[], may_fail=False),
    dict(property='C18', name='terms of a row', impl='impl_term', spec='spec_term', raw=True,
         anchor='PyomoModel._summand_math_expression', effects=[]),
    dict(property='C18', name='a summand', impl='impl_summand', spec='spec_summand', raw=True, anchor='Summand.__init__',
         opaque=['as_vector'], effects=[], observe=['return', 'rejects']),
    dict(property='C18', name='a sum of summands', impl='impl_sum', spec='spec_sum', raw=True, anchor='SumOfSummand.__init__',
         opaque=['as_vector'], effects=[], observe=['return', 'rejects']),
    dict(property='C18', name='left side of a constraint', impl='impl_left', spec='spec_left', raw=True,
         anchor='_Constraint.add_summand', opaque=['as_vector'], effects=[], observe=['return', 'rejects']),
    dict(property='C18', name='right side of a constraint', impl='impl_right', spec='spec_right', raw=True,
         anchor='_Constraint.add_constant', effects=[], observe=['return', 'rejects']),
    dict(property='C19', name='lengths of a summand', impl='impl_summand', spec='spec_summand', raw=True,
         anchor='Summand._check_length', opaque=['as_vector'], effects=[], observe=['return', 'rejects']),
    dict(property='C19', name='lengths of a constraint', impl='impl_length', spec='spec_length', raw=True,
         anchor='_Constraint._update_length', effects=[], observe=['return', 'rejects']),
    dict(property='C19', name='lengths of the parts of a constraint', impl='impl_left', spec='spec_left', raw=True,
         anchor='_Constraint.add_summand', opaque=['as_vector'], effects=[], observe=['return', 'rejects']),
    dict(property='C19', name='lengths of right sides', impl='impl_right', spec='spec_right', raw=True,
         anchor='_Constraint.add_constant', effects=[], observe=['return', 'rejects']),
    dict(property='C19', name='vectors of a length', impl='impl_vector', spec='spec_vector', raw=True,
         anchor='as_vector', effects=[], observe=['return', 'rejects']),
    dict(property='C20', name='values of the solution', impl='impl_results', spec='spec_results', raw=True,
         anchor='PyomoModel.solve', may_fail=False, effects=['Solver.solve', 'set.*', '.*'], observe=['return', 'effects', 'rejects']),
    dict(property='C20', also=['C31'], name='a solve starts without the results of earlier ones', impl='impl_solving',
         spec='spec_solving', raw=True, anchor='MathModel.solve', ordered=True, opaque=['ModelingLanguage.solve'],
         effects=['setattr.*', 'ModelingLanguage.solve'], observe=['effects'], fail_at=['ModelingLanguage.solve']),
    dict(property='C17', also=['C27'], name='the model is translated afresh', impl='impl_translation', spec='spec_translation',
         raw=True, anchor='MathModel.translate_to_modeling_language', opaque=['PyomoModel.translate_model'],
         effects=['ModelingLanguage.translate_model', 'setattr.*'], observe=['effects', 'rejects']),
    dict(property='C20', also=['C27'], name='the system is solved', impl='impl_solve_system', spec='spec_solve_system', raw=True,
         anchor='SystemModel.solve', opaque=['=MathModel.solve', 'SystemModel.main_results', 'MathModel.describe_size', 'apply_formating'],
         effects=['MathModel.solve'], observe=['effects'], may_fail=False),
    dict(property='C20', name='results by label', impl='impl_results_by_label', spec='spec_results_by_label', raw=True,
         anchor='MathModel.results', effects=[], may_fail=False,
         transparent=['MathModel.results']),
    dict(property='C17', name='a variable', impl='impl_new_variable', spec='spec_new_variable', raw=True,
         anchor='Variable.__init__', effects=[], observe=['return', 'rejects']),
]


def impl_variable(p: PyomoModel, v: Variable):
    p.translate_variable(v)


def spec_variable(p: PyomoModel, v: Variable):
    if v.is_binary:
        x = pyo.Var(v.indices, domain=pyo.Binary)
    else:
        x = pyo.Var(v.indices, within=pyo.Reals)
    p.mapping[v] = x
    CALL('PyomoModel._register_pyomo_comp', p, x, v)
    low = utils.as_vector(v.lower_bound, v.length)
    high = utils.as_vector(v.upper_bound, v.length)
    fix = utils.as_vector(v.fixed_value, v.length)
    for i in v.indices:
        if v.fixed and fix[i] is not None:
            x[i].value = fix[i]
            x[i].fix()
        else:
            x[i].setlb(low[i])
            x[i].setub(high[i])


def impl_equation(p: PyomoModel, e: Equation):
    p.translate_equation(e)


def spec_equation(p: PyomoModel, e: Equation):
    constant = utils.as_vector(e.constant, e.length)

    def row(model, i):
        return sum(p._summand_math_expression(s, i) for s in e.summands) == constant[i]
    x = pyo.Constraint(range(e.length), rule=row)
    CALL('PyomoModel._register_pyomo_comp', p, x, e)


def impl_inequation(p: PyomoModel, e: Inequation):
    p.translate_inequation(e)


def spec_inequation(p: PyomoModel, e: Inequation):
    constant = utils.as_vector(e.constant, e.length)

    def row(model, i):
        return sum(p._summand_math_expression(s, i) for s in e.summands) <= constant[i]
    x = pyo.Constraint(range(e.length), rule=row)
    CALL('PyomoModel._register_pyomo_comp', p, x, e)


def impl_objective(p: PyomoModel, e: Equation):
    p.translate_objective(e)


def spec_objective(p: PyomoModel, e: Equation):
    if not e.is_objective or e.length != 1:
        raise Exception('not an objective')

    def total(model):
        return sum(p._summand_math_expression(s) for s in e.summands)
    p.model.objective = pyo.Objective(rule=total, sense=pyo.minimize)
    p.mapping[e] = p.model.objective


def impl_translate(p: PyomoModel, m: MathModel):
    p.translate_model(m)


def spec_translate(p: PyomoModel, m: MathModel):
    for v in m.variables:
        p.translate_variable(v)
    for e in m.equations:
        p.translate_equation(e)
    for e in m.inequations:
        p.translate_inequation(e)
    p.translate_objective(m.objective)


def impl_register(p: PyomoModel, x, part: Variable):
    p._register_pyomo_comp(x, part)


def spec_register(p: PyomoModel, x, part: Variable):
    p._counter += 1
    p.model.add_component(f'{part.label}__{p._counter}', x)
    p.mapping[part] = x


def impl_parts(label: str, part):
    m = MathModel(label)
    m.add(part)
    return {'variables': m.variables, 'equations': m.equations, 'inequations': m.inequations, 'objective': m.objective}


def spec_parts(label: str, part):
    if not isinstance(part, (Variable, Equation, Inequation)):
        raise Exception('not a part of a model')
    v, e, i, o = [], [], [], None
    if isinstance(part, Variable):
        v = [part]
    elif isinstance(part, Equation):
        if part.is_objective:
            o = part
        else:
            e = [part]
            i = [part] if isinstance(part, Inequation) else []
    else:
        i = [part]
    return {'variables': v, 'equations': e, 'inequations': i, 'objective': o}


def impl_many_parts():
    m = MathModel('m')
    nothing = len(m.variables), len(m.equations), len(m.inequations), len(m.ts_variables), m.objective  # asked before: no matter
    v, e = [Variable(f'v{k}', 1) for k in range(7)], [Equation(f'e{k}', f'e{k}') for k in range(7)]
    i, o = [Inequation(f'i{k}', f'i{k}') for k in range(7)], Equation('o', 'o', is_objective=True)
    m.add(*v[:6], *e[:6], *i[:6], o, i[6], e[6], v[6])
    return ([x.label for x in m.variables], [x.label for x in m.equations], [x.label for x in m.inequations], m.objective.label,
            list(m.results()), nothing)


def spec_many_parts():
    v = [f'v{k}' for k in range(7)]
    return v, [f'e{k}' for k in range(7)], [f'i{k}' for k in range(7)], 'o', v, (0, 0, 0, 0, None)


def impl_term(p: PyomoModel, s: Summand, i: int):
    if len(s.indices) < 1:  # a summand without rows is never asked for one
        return None
    return p._summand_math_expression(s, i)


def spec_term(p: PyomoModel, s: Summand, i: int):
    if len(s.indices) < 1:
        return None
    x = p.mapping[s.variable]
    if isinstance(s, SumOfSummand):
        if len(s.indices) == 1:
            return x[s.indices[0]] * sum(s.factor_vec)
        return sum(x[k] * s.factor_vec[j] for j, k in enumerate(s.indices))
    if s.length == 1:
        return x[s.indices[0]] * s.factor_vec[0]
    if len(s.indices) == 1:
        return x[s.indices[0]] * s.factor_vec[i]
    return x[s.indices[i]] * s.factor_vec[i]


def impl_summand(v: Variable, factor, indices):
    s = Summand(v, factor, indices)
    return {'variable': s.variable, 'factor': s.factor_vec, 'indices': s.indices, 'length': s.length}


def spec_summand(v: Variable, factor, indices):
    at = v.indices if indices is None else indices
    n = term_length(at, factor)
    return {'variable': v, 'factor': utils.as_vector(factor, n), 'indices': at, 'length': n}


def term_length(at, factor):
    n = 1 if np.isscalar(factor) else len(factor)
    if n != len(at) and n != 1 and len(at) != 1:
        raise Exception('lengths differ')
    return len(at) if n == 1 else n


def impl_sum(v: Variable, factor, indices):
    s = SumOfSummand(v, factor, indices)
    return {'variable': s.variable, 'factor': s.factor_vec, 'indices': s.indices, 'length': s.length}


def spec_sum(v: Variable, factor, indices):
    at = v.indices if indices is None else indices
    n = term_length(at, factor)
    return {'variable': v, 'factor': utils.as_vector(factor, n), 'indices': at, 'length': 1}


def impl_left(e: Equation, v: Variable, factor, indices, total: bool):
    e = Equation('row')
    e.add_summand(v, factor, indices, total)
    first = e.length
    e.add_summand(v, factor, indices, total)
    return {'summands': e.summands, 'length': first, 'length of both': e.length, 'steps': e.summands[0].length,
            'at': e.summands[0].indices, 'factors': e.summands[0].factor_vec}


def spec_left(e: Equation, v: Variable, factor, indices, total: bool):
    if np.isscalar(indices):
        indices = [indices]
    s = SumOfSummand(v, factor, indices) if total else Summand(v, factor, indices)
    return {'summands': [s, s], 'length': s.length, 'length of both': s.length, 'steps': s.length, 'at': s.indices,
            'factors': s.factor_vec}


def joint_length(a, b):
    if a != 1 and b != 1 and a != b:
        raise ValueError('lengths differ')
    return b if a == 1 else a


def impl_length(e: Equation, n: int):
    e._update_length(n)
    return e.length


def spec_length(e: Equation, n: int):
    return joint_length(e.length, n)


def impl_right(e: Equation, value):
    e.add_constant(value)
    return {'constant': e.constant, 'length': e.length}


def spec_right(e: Equation, value):
    total = np.add(e.constant, value)
    return {'constant': total, 'length': joint_length(e.length, 1 if np.isscalar(total) else len(total))}


def impl_vector(value, n: int):
    return as_vector(value, n)


def spec_vector(value, n: int):
    if value is None:
        return np.array([None] * n)
    if np.isscalar(value):
        return np.ones(n) * value
    if len(value) != n:
        raise Exception('wrong length')
    return value if isinstance(value, np.ndarray) else np.array(value)


def impl_results(p: PyomoModel, m: MathModel, solver: Solver):
    p.solve(m, solver)
    return {'objective': m.result_of_objective, 'values': [v.result for v in m.variables]}


def spec_results(p: PyomoModel, m: MathModel, solver: Solver):
    if p._counter == 0:
        raise Exception('nothing to solve')
    solver.solve(p)
    m.result_of_objective = p.model.objective.expr()
    values = []
    for v in m.variables:
        x = np.fromiter(p.mapping[v].get_values().values(), dtype=float)
        x = np.rint(x).astype(np.int8) if v.is_binary else x.astype(float)
        v.result = x[0] if len(x) == 1 else x
    return {'objective': m.result_of_objective, 'values': [v.result for v in m.variables]}


def impl_translation(m: MathModel):
    m.translate_to_modeling_language()


def spec_translation(m: MathModel):
    if m.modeling_language != 'pyomo':
        raise Exception('unknown modeling language')
    m.model = PyomoModel()
    m.model.translate_model(m)


def impl_solve_system(m: SystemModel, solver: Solver, t: float):
    m.solve(solver, t)


def spec_solve_system(m: SystemModel, solver: Solver, t: float):
    MathModel.solve(m, solver)


def impl_solving(m: MathModel, solver: Solver):
    MathModel.solve(m, solver)


def spec_solving(m: MathModel, solver: Solver):
    m.solver = solver
    for v in m.variables:
        v.result = None
    m.model.solve(m, solver)


def impl_results_by_label(a: Variable, b: VariableTS):
    m = MathModel('model')
    m.add(a, b)
    return m.results()


def spec_results_by_label(a: Variable, b: VariableTS):
    return {a.label: a.result, b.label: b.result}


def impl_new_variable(label: str, n: int, short, binary: bool, fixed, lower, upper):
    v = Variable(label, n, short, binary, fixed, lower, upper)
    return {'label': v.label, 'length': v.length, 'binary': v.is_binary, 'lower': v.lower_bound, 'upper': v.upper_bound,
            'fixed': v.fixed, 'value': v.fixed_value, 'indices': v.indices, 'result': v.result}


def spec_new_variable(label: str, n: int, short, binary: bool, fixed, lower, upper):
    if fixed is not None:
        if lower is not None and not np.all(np.asarray(fixed) >= np.asarray(lower)):
            raise Exception('fixed below lower bound')
        if upper is not None and not np.all(np.asarray(fixed) <= np.asarray(upper)):
            raise Exception('fixed above upper bound')
    return {'label': label, 'length': n, 'binary': binary, 'lower': lower, 'upper': upper, 'fixed': fixed is not None,
            'value': fixed, 'indices': range(n), 'result': None}
