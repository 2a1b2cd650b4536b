"""Effects: totals, limits, routing of shares, shares between effects, objective, targets of effect values"""
from typing import Optional
import numpy as np
from flixOpt.core import TimeSeries
from flixOpt.effects import (Effect, EffectCollection, EffectCollectionModel, EffectTimeSeries, EffectDictInvest)
from flixOpt.features import SingleShareModel
from flixOpt.math_modeling import Variable, VariableTS
from flixOpt.structure import Element, SystemModel

OBLIGATIONS = [
    dict(property='C13', name='totals and limits of an effect', also=['C42'], impl='impl_effect', spec='spec_effect',
         anchor='EffectModel.do_modeling', effects=[], may_fail=False),
    dict(property='C13', name='operation shares reach their effects', also=['C16'], impl='impl_operation_share',
         spec='spec_operation_share', anchor='EffectCollectionModel.add_share_to_operation',
         opaque=['ShareAllocationModel.add_share', 'EffectCollection.standard_effect'], effects=['ShareAllocationModel.*']),
    dict(property='C13', name='investment shares reach their effects', also=['C16'], impl='impl_invest_share',
         spec='spec_invest_share', anchor='EffectCollectionModel.add_share_to_invest',
         opaque=['ShareAllocationModel.add_share', 'EffectCollection.standard_effect'], effects=['ShareAllocationModel.*']),
    dict(property='C13', name='shares between effects', impl='impl_between', spec='spec_between',
         anchor='EffectCollectionModel.add_share_between_effects',
         opaque=['ShareAllocationModel.add_share'], effects=['ShareAllocationModel.*']),
    dict(property='C13', name='shares between the effects of a model', impl='impl_all_between', spec='spec_all_between', raw=True,
         anchor='EffectCollectionModel.do_modeling', observe=['effects'], may_fail=True,
         opaque=['EffectModel.do_modeling', 'ShareAllocationModel.do_modeling', 'ShareAllocationModel.add_share',
                 '_Constraint.add_summand'],
         effects=['ShareAllocationModel.add_share']),
    dict(property='C13', name='single shares', impl='impl_share', spec='spec_share',
         anchor='ShareAllocationModel.add_share', effects=[], may_fail=False),
    dict(property='C13', name='fixed shares', impl='impl_fixed', spec='spec_fixed',
         anchor='SingleShareModel.__init__', effects=[], observe=['rows', 'vars', 'rejects', 'return']),
    dict(property='C14', name='objective', impl='impl_objective', spec='spec_objective',
         anchor='EffectCollectionModel.do_modeling', opaque=['EffectCollectionModel.add_share_between_effects'],
         effects=[]),
]


def impl_effect(effect: Effect, system_model: SystemModel):
    m = effect.create_model()
    m.do_modeling(system_model)
    return {'operation': m.operation.sum, 'invest': m.invest.sum, 'total': m.all.sum, 'per step': m.operation.sum_TS}


def spec_effect(effect: Effect, system_model: SystemModel):
    n = system_model.nr_of_time_steps
    dt = system_model.dt_in_hours
    name = effect.label_full
    invest = VAR(name + '__invest_invest_sum', 1, lower=effect.minimum_invest, upper=effect.maximum_invest)
    operation = VAR(name + '__operation_operation_sum', 1, lower=effect.minimum_operation, upper=effect.maximum_operation)
    total = VAR(name + '__all_all_sum', 1, lower=effect.minimum_total, upper=effect.maximum_total)
    steps = VAR(name + '__operation_operation_sum_TS', n,
                lower=None if effect.minimum_operation_per_hour is None else effect.minimum_operation_per_hour.active_data * dt,
                upper=None if effect.maximum_operation_per_hour is None else effect.maximum_operation_per_hour.active_data * dt)
    share1 = VAR(name + '__operation', 1)
    share2 = VAR(name + '__invest', 1)
    r = EQ()
    TERM(r, 1, invest)
    r = EQ()
    TERM(r, -1, operation)
    TERM(r, 1, steps, as_sum=True)
    r = EQ()
    TERM(r, 1, steps)
    r = EQ()
    TERM(r, 1, total)
    TERM(r, -1, share1)
    TERM(r, -1, share2)
    r = EQ()
    TERM(r, 1, operation)
    TERM(r, -1, share1)
    r = EQ()
    TERM(r, 1, invest)
    TERM(r, -1, share2)
    return {'operation': operation, 'invest': invest, 'total': total, 'per step': steps}


def impl_operation_share(m: EffectCollectionModel, name: str, element: Element, values: EffectTimeSeries, factor,
                         variable: Optional[Variable]):
    m.add_share_to_operation(name, element, values, factor, variable)


def spec_operation_share(m: EffectCollectionModel, name: str, element: Element, values: EffectTimeSeries, factor,
                         variable: Optional[Variable]):
    for effect, series in values.items():
        target = m.element.standard_effect if effect is None else effect
        if target not in m.element.effects.values():
            raise Exception('unknown effect')
        CALL('ShareAllocationModel.add_share', m._effect_models[target].operation, m._system_model,
             element.label_full + '__' + name, variable, series.active_data * factor, False)


def impl_invest_share(m: EffectCollectionModel, name: str, element: Element, values: EffectDictInvest, factor,
                      variable: Optional[Variable]):
    m.add_share_to_invest(name, element, values, factor, variable)


def spec_invest_share(m: EffectCollectionModel, name: str, element: Element, values: EffectDictInvest, factor,
                      variable: Optional[Variable]):
    for effect, value in values.items():
        target = m.element.standard_effect if effect is None else effect
        if target not in m.element.effects.values():
            raise Exception('unknown effect')
        CALL('ShareAllocationModel.add_share', m._effect_models[target].invest, m._system_model,
             element.label_full + '__' + name, variable, value * factor, False)


def impl_between(m: EffectCollectionModel):
    m.add_share_between_effects()


def spec_between(m: EffectCollectionModel):
    for origin in m.element.effects.values():
        for target, series in origin.specific_share_to_other_effects_operation.items():
            CALL('ShareAllocationModel.add_share', m._effect_models[target].operation, m._system_model,
                 origin.label_full + '_operation', m._effect_models[origin].operation.sum_TS, series.active_data, False)
        for target, factor in origin.specific_share_to_other_effects_invest.items():
            CALL('ShareAllocationModel.add_share', m._effect_models[target].invest, m._system_model,
                 origin.label_full + '_invest', m._effect_models[origin].invest.sum, factor, False)


def impl_all_between(c: EffectCollection, system_model: SystemModel):
    m = c.create_model(system_model)
    m.do_modeling(system_model)


def spec_all_between(c: EffectCollection, system_model: SystemModel):
    m = c.create_model(system_model)
    models = {effect: effect.create_model() for effect in c.effects.values()}
    for origin in c.effects.values():
        for target, series in origin.specific_share_to_other_effects_operation.items():
            CALL('ShareAllocationModel.add_share', models[target].operation, system_model,
                 origin.label_full + '_operation', models[origin].operation.sum_TS, series.active_data, False)
        for target, factor in origin.specific_share_to_other_effects_invest.items():
            CALL('ShareAllocationModel.add_share', models[target].invest, system_model,
                 origin.label_full + '_invest', models[origin].invest.sum, factor, False)


def impl_share(effect: Effect, system_model: SystemModel, rate: VariableTS, size: Variable, factor1, factor2, factor3):
    ASSUME(rate.length > 1)
    ASSUME(size.length == 1)
    m = effect.create_model()
    m.operation.do_modeling(system_model)
    m.invest.do_modeling(system_model)
    m.operation.add_share(system_model, 'a', rate, factor1)
    m.invest.add_share(system_model, 'b', size, factor2)
    m.operation.add_share(system_model, 'c', rate, factor3, True)
    return {'sum': m.operation.sum, 'invest': m.invest.sum}


def spec_share(effect: Effect, system_model: SystemModel, rate: VariableTS, size: Variable, factor1, factor2, factor3):
    ASSUME(rate.length > 1)
    ASSUME(size.length == 1)
    name = effect.label_full
    n = system_model.nr_of_time_steps
    dt = system_model.dt_in_hours
    operation = VAR(name + '__operation_operation_sum', 1, lower=effect.minimum_operation, upper=effect.maximum_operation)
    invest = VAR(name + '__invest_invest_sum', 1, lower=effect.minimum_invest, upper=effect.maximum_invest)
    steps = VAR(name + '__operation_operation_sum_TS', n,
                lower=None if effect.minimum_operation_per_hour is None else effect.minimum_operation_per_hour.active_data * dt,
                upper=None if effect.maximum_operation_per_hour is None else effect.maximum_operation_per_hour.active_data * dt)
    a = VAR(name + '__a', rate.length)
    b = VAR(name + '__b', 1)
    c = VAR(name + '__c', 1)
    r = EQ()
    TERM(r, factor1, rate)
    TERM(r, -1, a)
    r = EQ()
    TERM(r, factor2, size)
    TERM(r, -1, b)
    r = EQ()
    TERM(r, factor3, rate, as_sum=True)
    TERM(r, -1, c)
    r = EQ()
    TERM(r, 1, invest)
    TERM(r, -1, b)
    r = EQ()
    TERM(r, 1, steps)
    TERM(r, -1, a)
    r = EQ()
    TERM(r, 1, operation)
    TERM(r, -1, steps, as_sum=True)
    TERM(r, -1, c)
    return {'sum': operation, 'invest': invest}


def impl_fixed(element: Element, name: str, factor: Scalar, values: np.ndarray, as_sum: bool):
    one = SingleShareModel(element, name + '1', None, factor, False)
    two = SingleShareModel(element, name + '2', None, values, True)
    three = SingleShareModel(element, name + '3', None, values, as_sum)
    return one.single_share, two.single_share, three.single_share


def spec_fixed(element: Element, name: str, factor: Scalar, values: np.ndarray, as_sum: bool):
    if not as_sum:
        raise Exception('a fixed share in every step')
    one = VAR(element.label_full + '__' + name + '1', 1)
    two = VAR(element.label_full + '__' + name + '2', 1)
    three = VAR(element.label_full + '__' + name + '3', 1)
    r = EQ()
    TERM(r, 1, one)
    RHS(r, factor)
    r = EQ()
    TERM(r, 1, two)
    RHS(r, np.sum(values))
    r = EQ()
    TERM(r, 1, three)
    RHS(r, np.sum(values))
    return one, two, three


def impl_objective(collection: EffectCollection, system_model: SystemModel):
    ASSUME(collection.objective_effect is not None)
    m = collection.create_model(system_model)
    m.do_modeling(system_model)
    REG(m.objective)


def spec_objective(collection: EffectCollection, system_model: SystemModel):
    ASSUME(collection.objective_effect is not None)
    totals = {}
    for effect in collection.effects.values():
        totals[effect] = spec_effect(effect, system_model)
    penalty = VAR(collection.label + '__penalty_penalty_sum', 1)
    r = EQ()
    TERM(r, 1, penalty)
    best = totals[collection.objective_effect]
    r = EQ(objective=True)
    TERM(r, 1, best['operation'])
    TERM(r, 1, best['invest'])
    TERM(r, 1, penalty)
