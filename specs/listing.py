"""What the listings of a model say: every variable and row of every part, and how many there are"""
from typing import Dict, List, Optional
from flixOpt.components import Storage
from flixOpt.config import CONFIG
from flixOpt.elements import Bus, Component
from flixOpt.flow_system import FlowSystem
from flixOpt.math_modeling import Equation, Inequation, SolverLog, Summand, SumOfSummand, Variable, VariableTS
from flixOpt.structure import Element, ElementModel, SystemModel

TEXTS = ['Variable.description', 'Equation.description', 'Inequation.description', '_Constraint.description']

OBLIGATIONS = [
    dict(property='C22', name='sizes of a part', impl='impl_overview', spec='spec_overview', raw=True,
         anchor='ElementModel.overview_of_model_size', effects=[], may_fail=False,
         opaque=['ElementModel.all_variables', 'ElementModel.all_equations', 'ElementModel.all_inequations']),
    dict(property='C22', name='listings of a part', impl='impl_part', spec='spec_part', raw=True,
         anchor='ElementModel.description_of_variables', effects=[], opaque=TEXTS, observe=['return']),
    dict(property='C22', name='listings of a large part', impl='impl_large', spec='spec_large', raw=True, recurse=9,
         anchor='ElementModel.description_of_variables', effects=[], opaque=TEXTS, observe=['return']),
    dict(property='C22', name='listings of the system', impl='impl_system', spec='spec_system', raw=True,
         anchor='SystemModel.description_of_variables', effects=[], may_fail=False,
         opaque=['ElementModel.description_of_variables', 'ElementModel.description_of_constraints'] + TEXTS),
    dict(property='C22', name='infos of a solved system', impl='impl_infos', spec='spec_infos', raw=True,
         anchor='SystemModel.infos', effects=[], may_fail=False,
         opaque=['SystemModel.description_of_variables', 'SystemModel.description_of_constraints', 'SystemModel.main_results',
                 'SystemModel.variables', 'SystemModel.equations', 'SystemModel.inequations', 'CONFIG.to_dict', 'SolverLog.infos']),
    dict(property='C22', name='text of a variable', impl='impl_variable', spec='spec_variable', raw=True,
         anchor='Variable.description', effects=[], may_fail=False),
    dict(property='C22', name='text of a row', impl='impl_row', spec='spec_row', raw=True, anchor='Equation.description',
         opaque=['Summand.description', 'SumOfSummand.description', 'as_vector'], effects=[], observe=['return']),
    dict(property='C22', name='text of a summand', impl='impl_summand', spec='spec_summand', raw=True,
         anchor='Summand.description', effects=[], may_fail=False),
]


def impl_variable(v: Variable):
    return SAYS(v.description())


def spec_variable(v: Variable):
    if v.fixed:
        return [v.length, v.label, v.fixed_value]
    return [v.length, v.label, v.lower_bound, v.upper_bound]


def impl_row(e: Equation, i: Inequation):
    ASSUME(not e.is_objective)
    ASSUME(e.is_objective != 'objective')
    return SAYS(Equation.description(e)), SAYS(Inequation.description(i, 3))


def spec_row(e: Equation, i: Inequation):
    ASSUME(not e.is_objective)
    ASSUME(e.is_objective != 'objective')
    k = min(3, i.length - 1)
    # an equation of the steps after the first one has no rows in a model of a single step
    return ([e.label] if e.length == 0
            else [e.label, min(0, e.length - 1) + 1, e.length, e.constant_vector[min(0, e.length - 1)],
                  [s.description(0) for s in e.summands]],
            [i.label] if i.length == 0
            else [i.label, k + 1, i.length, i.constant_vector[k], [s.description(3) for s in i.summands]])


def impl_summand(s: Summand, k: int, a: SumOfSummand):
    return SAYS(Summand.description(s, k)), SAYS(SumOfSummand.description(a))


def spec_summand(s: Summand, k: int, a: SumOfSummand):
    i = 0 if s.length == 1 else k
    return [s.factor_vec[i], s.variable.label, s.indices[i]], [a.factor_vec[0], a.variable.label, a.indices[0]]


def impl_overview(m: ElementModel):
    return m.overview_of_model_size


def spec_overview(m: ElementModel):
    return {'no of Euations': len(m.all_equations), 'no of Equations single': sum(e.length for e in m.all_equations.values()),
            'no of Inequations': len(m.all_inequations),
            'no of Inequations single': sum(e.length for e in m.all_inequations.values()),
            'no of Variables': len(m.all_variables), 'no of Variables single': sum(v.length for v in m.all_variables.values())}


def tree(a: Element, b: Element, v: Variable, w: Variable, e: Equation, i: Inequation):
    ASSUME(v.label != w.label)
    ASSUME(e.label != i.label)
    top, sub, deep = ElementModel(a), ElementModel(b, 'sub'), ElementModel(b, 'deep')
    top.sub_models.append(sub)
    sub.sub_models.append(deep)
    sub.add_variables(v)
    deep.add_variables(w)
    top.add_constraints(e)
    deep.add_constraints(i)
    return top


def impl_part(a: Element, b: Element, v: Variable, w: Variable, e: Equation, i: Inequation):
    top = tree(a, b, v, w, e, i)
    return {'variables': top.description_of_variables(), 'all variables': top.description_of_variables(structured=False),
            'rows': top.description_of_constraints(), 'all rows': top.description_of_constraints(structured=False)}


def spec_part(a: Element, b: Element, v: Variable, w: Variable, e: Equation, i: Inequation):
    top = tree(a, b, v, w, e, i)
    return {'variables': {'_self': [], 'sub': {'_self': [v.description()], 'deep': {'_self': [w.description()]}}},
            'all variables': [v.description(), w.description()],
            'rows': {'_self': [e.description()], 'sub': {'_self': [], 'deep': {'_self': [i.description()]}}},
            'all rows': [e.description(), i.description()]}


def large(a: Element):
    top = ElementModel(a, 'm0')
    models = [top]
    for i in range(1, 8):
        models.append(ElementModel(a, f'm{i}'))
        top.sub_models.append(models[i])
    for i in range(8, 14):
        models.append(ElementModel(a, f'm{i}'))
        models[i - 1].sub_models.append(models[i])
    for x in models:
        for k in range(7):
            x.add_variables(Variable(f'{x.label}v{k}', 1))
            x.add_constraints(Equation(f'{x.label}e{k}'))
    return top, models


def impl_large(a: Element):
    top, models = large(a)
    return {'variables': top.description_of_variables(), 'all variables': BAG(top.description_of_variables(structured=False)),
            'rows': top.description_of_constraints(), 'all rows': BAG(top.description_of_constraints(structured=False))}


def spec_large(a: Element):
    top, models = large(a)
    variables = [{'_self': [v.description() for v in x.variables.values()]} for x in models]
    rows = [{'_self': [e.description() for e in x.constraints.values()]} for x in models]
    for part in (variables, rows):
        for i in range(1, 8):
            part[0][f'm{i}'] = part[i]
        for i in range(8, 14):
            part[i - 1][f'm{i}'] = part[i]
    return {'variables': variables[0], 'all variables': BAG(v.description() for x in models for v in x.variables.values()),
            'rows': rows[0], 'all rows': BAG(e.description() for x in models for e in x.constraints.values())}


def impl_system(m: SystemModel, structured: bool):
    return m.description_of_variables(structured), m.description_of_constraints(structured)


def spec_system(m: SystemModel, structured: bool):
    s = m.flow_system
    effects = s.effect_collection.model
    return ({'Components': {k: c.model.description_of_variables(structured) for k, c in s.components.items()},
             'Buses': {k: b.model.description_of_variables(structured) for k, b in s.buses.items()},
             'Effects': effects.description_of_variables(structured),
             'Others': {x.element.label: x.description_of_variables(structured) for x in m.other_models}},
            {'Components': {k: c.model.description_of_constraints(structured) for k, c in s.components.items()},
             'Buses': {k: b.model.description_of_constraints(structured) for k, b in s.buses.items()},
             'Objective': m.effect_collection_model.objective.description(),
             'Effects': effects.description_of_constraints(structured),
             'Others': {x.element.label: x.description_of_constraints(structured) for x in m.other_models}})


def impl_infos(m: SystemModel):
    found = m.infos
    return found['Constraints'], found['Variables'], found['Main Results'], found['Config'], found['Solver Log'], found['Model Size']


def spec_infos(m: SystemModel):
    log = m.solver.log
    return (m.description_of_constraints(), m.description_of_variables(), m.main_results, CONFIG.to_dict(),
            log.infos if isinstance(log, SolverLog) else log,
            {'No. of Eqs.': len(m.equations), 'No. of Eqs. (single)': sum(e.length for e in m.equations),
             'No. of Ineqs.': len(m.inequations), 'No. of Ineqs. (single)': sum(e.length for e in m.inequations),
             'No. of Vars.': len(m.variables), 'No. of Vars. (single)': sum(v.length for v in m.variables),
             'No. of Vars. (TS)': len([v for v in m.variables if isinstance(v, VariableTS)])})
