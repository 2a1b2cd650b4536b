"""On/off states of components (several flows), mutual exclusion, durations and histories of states"""
from typing import List, Optional
from flixOpt.config import CONFIG
from flixOpt.elements import Component, Flow
from flixOpt.structure import Element, SystemModel
from flixOpt.interface import OnOffParameters
from flixOpt.features import OnOffModel, PreventSimultaneousUsageModel
from flixOpt.math_modeling import VariableTS
import numpy as np
from specs.flow import previous_states, duration

SHARES = ['EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest']

FLOWS = ['FlowModel.do_modeling', 'OnOffModel.do_modeling', 'PreventSimultaneousUsageModel.do_modeling',
         'FlowModel.absolute_flow_rate_bounds', 'Flow.create_model']
OWN = ['.*do_modeling']

OBLIGATIONS = [
    dict(property='C09', name='on states of several flows', impl='impl_several', spec='spec_several',
         anchor='OnOffModel._add_on_constraints', opaque=SHARES + ['OnOffModel._add_switch_constraints', 'OnOffModel._previous_on_values'],
         effects=[], about=['OnOff_on"', 'totalOnHours']),
    dict(property='C09', name='on states of seven flows', impl='impl_seven', spec='spec_seven',
         anchor='OnOffModel._add_on_constraints', opaque=SHARES + ['OnOffModel._add_switch_constraints', 'OnOffModel._previous_on_values'],
         effects=[], about=['OnOff_on"', 'totalOnHours']),
    dict(property='C12', name='seven exclusive flows of a component', impl='impl_seven_exclusive',
         spec='spec_seven_exclusive', anchor='ComponentModel.do_modeling', opaque=FLOWS, effects=OWN, may_fail=False),
    dict(property='C09', name='on states of a component with seven flows', impl='impl_component_on7', spec='spec_component_on7',
         anchor='ComponentModel.do_modeling', opaque=FLOWS, effects=OWN, may_fail=False),
    dict(property='C12', name='only one of several flows', impl='impl_exclusive', spec='spec_exclusive',
         anchor='PreventSimultaneousUsageModel.do_modeling', effects=[], may_fail=False),
    dict(property='C12', name='exclusive flows of a component', impl='impl_component_exclusive',
         spec='spec_component_exclusive', anchor='ComponentModel.do_modeling', opaque=FLOWS, effects=OWN, may_fail=False),
    dict(property='C10', name='hours a state lasted before the start', impl='impl_lasted', spec='spec_lasted',
         anchor='OnOffModel.get_consecutive_duration', effects=[], may_fail=True),
    dict(property='C10', name='too few hours are rejected', impl='impl_lasted', spec='spec_lasted_hours', raw=True,
         anchor='OnOffModel.get_consecutive_duration', effects=[], observe=['return', 'rejects'], exceptions=['TypeError']),
    dict(property='C10', also=['C09'], name='states of seven flows before the start', impl='impl_history', spec='spec_history', raw=True,
         anchor='OnOffModel._previous_on_values', effects=[], may_fail=False),
    dict(property='C12', name='exclusive states are binary', impl='impl_exclusive_binary', spec='spec_exclusive_binary', raw=True,
         anchor='PreventSimultaneousUsageModel.__init__', effects=[], observe=['rejects']),
    dict(property='C09', name='on states of a component', impl='impl_component_on', spec='spec_component_on',
         anchor='ComponentModel.do_modeling', opaque=FLOWS, effects=OWN, may_fail=False),
    dict(property='C09', name='on states of a component with one flow', impl='impl_component_on1', spec='spec_component_on1',
         anchor='ComponentModel.do_modeling', opaque=FLOWS, effects=OWN, may_fail=False),
]


def impl_several(element: Element, p: OnOffParameters, a: VariableTS, b: VariableTS, c: VariableTS, low_a, low_b, low_c,
                 up_a, up_b, up_c, system_model: SystemModel):
    ASSUME(p.consecutive_on_hours_min is None and p.consecutive_on_hours_max is None)
    ASSUME(p.consecutive_off_hours_min is None and p.consecutive_off_hours_max is None)
    OnOffModel(element, p, [a, b, c], [(low_a, up_a), (low_b, up_b), (low_c, up_c)]).do_modeling(system_model)


def spec_several(element: Element, p: OnOffParameters, a: VariableTS, b: VariableTS, c: VariableTS, low_a, low_b, low_c,
                 up_a, up_b, up_c, system_model: SystemModel):
    ASSUME(p.consecutive_on_hours_min is None and p.consecutive_on_hours_max is None)
    ASSUME(p.consecutive_off_hours_min is None and p.consecutive_off_hours_max is None)
    on = VAR(element.label_full + '__OnOff_on', system_model.nr_of_time_steps, binary=True)
    hours = VAR(element.label_full + '__OnOff_totalOnHours', 1, lower=p.on_hours_total_min, upper=p.on_hours_total_max)
    r = EQ()
    TERM(r, system_model.dt_in_hours, on, as_sum=True)
    TERM(r, -1, hours)
    r = LE()
    TERM(r, -1, a)
    TERM(r, -1, b)
    TERM(r, -1, c)
    TERM(r, CONFIG.modeling.EPSILON, on)
    r = LE()
    TERM(r, 1 / 3, a)
    TERM(r, 1 / 3, b)
    TERM(r, 1 / 3, c)
    TERM(r, -(up_a + up_b + up_c) / 3, on)


def impl_seven(element: Element, p: OnOffParameters, a: VariableTS, b: VariableTS, c: VariableTS, d: VariableTS, e: VariableTS,
               f: VariableTS, g: VariableTS, low, up, system_model: SystemModel):
    ASSUME(p.consecutive_on_hours_min is None and p.consecutive_on_hours_max is None)
    ASSUME(p.consecutive_off_hours_min is None and p.consecutive_off_hours_max is None)
    OnOffModel(element, p, [a, b, c, d, e, f, g], [(low, up), (low, up), (low, up), (low, up), (low, up), (low, up), (low, 2 * up)]
               ).do_modeling(system_model)


def spec_seven(element: Element, p: OnOffParameters, a: VariableTS, b: VariableTS, c: VariableTS, d: VariableTS, e: VariableTS,
               f: VariableTS, g: VariableTS, low, up, system_model: SystemModel):
    ASSUME(p.consecutive_on_hours_min is None and p.consecutive_on_hours_max is None)
    ASSUME(p.consecutive_off_hours_min is None and p.consecutive_off_hours_max is None)
    on = VAR(element.label_full + '__OnOff_on', system_model.nr_of_time_steps, binary=True)
    hours = VAR(element.label_full + '__OnOff_totalOnHours', 1, lower=p.on_hours_total_min, upper=p.on_hours_total_max)
    r = EQ()
    TERM(r, system_model.dt_in_hours, on, as_sum=True)
    TERM(r, -1, hours)
    r = LE()
    for v in [a, b, c, d, e, f, g]:
        TERM(r, -1, v)
    TERM(r, CONFIG.modeling.EPSILON, on)
    r = LE()
    for v in [a, b, c, d, e, f, g]:
        TERM(r, 1 / 7, v)
    TERM(r, -8 * up / 7, on)


def impl_seven_exclusive(label: str, a: Flow, b: Flow, c: Flow, d: Flow, e: Flow, f: Flow, g: Flow, system_model: SystemModel):
    for flow, name in zip([a, b, c, d, e, f, g], 'abcdefg'):
        flow.label = name
    component = Component(label, [a, b, c], [d, e, f, g], prevent_simultaneous_flows=[a, b, c, e, f, g])
    component.create_model().do_modeling(system_model)
    return [flow.on_off_parameters for flow in [a, b, c, d, e, f, g]]


def spec_seven_exclusive(label: str, a: Flow, b: Flow, c: Flow, d: Flow, e: Flow, f: Flow, g: Flow, system_model: SystemModel):
    for flow, name in zip([a, b, c, d, e, f, g], 'abcdefg'):
        flow.label = name
    exclusive = [a, b, c, e, f, g]
    component = Component(label, [a, b, c], [d, e, f, g], prevent_simultaneous_flows=exclusive)
    for flow in exclusive:
        with_binary(flow)
    for flow in [a, b, c, d, e, f, g]:
        CALL('FlowModel.do_modeling', flow.create_model(), system_model)
    CALL('PreventSimultaneousUsageModel.do_modeling',
         PreventSimultaneousUsageModel(component, [flow.model._on.on for flow in exclusive]), system_model)
    return [flow.on_off_parameters for flow in [a, b, c, d, e, f, g]]


def impl_component_on7(label: str, a: Flow, b: Flow, c: Flow, d: Flow, e: Flow, f: Flow, g: Flow, p: OnOffParameters,
                       system_model: SystemModel):
    for flow, name in zip([a, b, c, d, e, f, g], 'abcdefg'):
        flow.label = name
    component = Component(label, [a, b, c], [d, e, f, g], on_off_parameters=p)
    component.create_model().do_modeling(system_model)
    return [flow.on_off_parameters for flow in [a, b, c, d, e, f, g]]


def spec_component_on7(label: str, a: Flow, b: Flow, c: Flow, d: Flow, e: Flow, f: Flow, g: Flow, p: OnOffParameters,
                       system_model: SystemModel):
    flows = [a, b, c, d, e, f, g]
    for flow, name in zip(flows, 'abcdefg'):
        flow.label = name
    component = Component(label, [a, b, c], [d, e, f, g], on_off_parameters=p)
    for flow in flows:
        with_binary(flow)
    for flow in flows:
        CALL('FlowModel.do_modeling', flow.create_model(), system_model)
    CALL('OnOffModel.do_modeling',
         OnOffModel(component, p, [flow.model.flow_rate for flow in flows],
                    [flow.model.absolute_flow_rate_bounds for flow in flows]), system_model)
    return [flow.on_off_parameters for flow in flows]


def impl_exclusive(element: Element, states: List[VariableTS], system_model: SystemModel):
    ASSUME(len(states) >= 2 and all(s.is_binary for s in states))
    PreventSimultaneousUsageModel(element, states).do_modeling(system_model)


def spec_exclusive(element: Element, states: List[VariableTS], system_model: SystemModel):
    ASSUME(len(states) >= 2 and all(s.is_binary for s in states))
    r = LE()
    for s in states:
        TERM(r, 1, s)
    RHS(r, 1.1)


def impl_component_exclusive(label: str, a: Flow, b: Flow, c: Flow, system_model: SystemModel):
    ASSUME(a.label != b.label and a.label != c.label and b.label != c.label)
    component = Component(label, [a], [b, c], prevent_simultaneous_flows=[a, c])
    component.create_model().do_modeling(system_model)
    return {'a': a.on_off_parameters, 'b': b.on_off_parameters, 'c': c.on_off_parameters}


def spec_component_exclusive(label: str, a: Flow, b: Flow, c: Flow, system_model: SystemModel):
    ASSUME(a.label != b.label and a.label != c.label and b.label != c.label)
    component = Component(label, [a], [b, c], prevent_simultaneous_flows=[a, c])
    with_binary(a)
    with_binary(c)
    for flow in [a, b, c]:
        CALL('FlowModel.do_modeling', flow.create_model(), system_model)
    CALL('PreventSimultaneousUsageModel.do_modeling',
         PreventSimultaneousUsageModel(component, [a.model._on.on, c.model._on.on]), system_model)
    return {'a': a.on_off_parameters, 'b': b.on_off_parameters, 'c': c.on_off_parameters}


def with_binary(flow):
    if flow.on_off_parameters is None:
        flow.on_off_parameters = OnOffParameters()


def impl_component_on(label: str, a: Flow, b: Flow, p: OnOffParameters, system_model: SystemModel):
    ASSUME(a.label != b.label)
    component = Component(label, [a], [b], on_off_parameters=p)
    component.create_model().do_modeling(system_model)
    return {'a': a.on_off_parameters, 'b': b.on_off_parameters}


def spec_component_on(label: str, a: Flow, b: Flow, p: OnOffParameters, system_model: SystemModel):
    ASSUME(a.label != b.label)
    component = Component(label, [a], [b], on_off_parameters=p)
    with_binary(a)
    with_binary(b)
    for flow in [a, b]:
        CALL('FlowModel.do_modeling', flow.create_model(), system_model)
    CALL('OnOffModel.do_modeling',
         OnOffModel(component, p, [a.model.flow_rate, b.model.flow_rate],
                    [a.model.absolute_flow_rate_bounds, b.model.absolute_flow_rate_bounds]), system_model)
    return {'a': a.on_off_parameters, 'b': b.on_off_parameters}


def impl_component_on1(label: str, a: Flow, p: OnOffParameters, system_model: SystemModel):
    component = Component(label, [], [a], on_off_parameters=p)
    component.create_model().do_modeling(system_model)
    return {'a': a.on_off_parameters}


def spec_component_on1(label: str, a: Flow, p: OnOffParameters, system_model: SystemModel):
    component = Component(label, [], [a], on_off_parameters=p)
    with_binary(a)
    CALL('FlowModel.do_modeling', a.create_model(), system_model)
    CALL('OnOffModel.do_modeling',
         OnOffModel(component, p, [a.model.flow_rate], [a.model.absolute_flow_rate_bounds]), system_model)
    return {'a': a.on_off_parameters}


def impl_lasted(states, hours):
    return OnOffModel.get_consecutive_duration(states, hours)


def spec_lasted(states, hours):
    if np.isscalar(states):
        return states * hours if np.isscalar(hours) else states * hours[-1]
    zeros = np.where(np.isclose(states, 0, atol=CONFIG.modeling.EPSILON))[0]
    steps = len(states) - (zeros[-1] + 1) if zeros.size > 0 else len(states)
    if steps == 0:
        return 0
    if np.isscalar(hours):
        return np.sum(states[-steps:] * hours)
    return np.sum(states[-steps:] * hours[-steps:])


def spec_lasted_hours(states, hours):
    if np.isscalar(states):
        return states * hours if np.isscalar(hours) else states * hours[-1]
    zeros = np.where(np.isclose(states, 0, atol=CONFIG.modeling.EPSILON))[0]
    steps = len(states) - (zeros[-1] + 1) if zeros.size > 0 else len(states)
    if steps == 0:
        return 0
    if np.isscalar(hours):
        return np.sum(states[-steps:] * hours)
    if steps > len(hours):
        raise TypeError('too few hours')
    return np.sum(states[-steps:] * hours[-steps:])


def impl_exclusive_binary(e: Element, a: VariableTS, b: VariableTS):
    PreventSimultaneousUsageModel(e, [a, b])


def spec_exclusive_binary(e: Element, a: VariableTS, b: VariableTS):
    if not a.is_binary or not b.is_binary:
        raise AssertionError('not binary')


def impl_history(m: OnOffModel, a: VariableTS, b: VariableTS, c: VariableTS, d: VariableTS, e: VariableTS, f: VariableTS,
                 g: VariableTS, last: np.ndarray, first: np.ndarray, rate: Scalar, accuracy: float):
    for v, values in zip([a, b, c, d, e, f, g], [first, None, rate, first, rate, None, last]):
        v.previous_values = values
    m._defining_variables = [a, b, c, d, e, f, g]
    some = m._previous_on_values(accuracy)
    m._defining_variables = [b, f]
    return some, m._previous_on_values(accuracy)


def spec_history(m: OnOffModel, a: VariableTS, b: VariableTS, c: VariableTS, d: VariableTS, e: VariableTS, f: VariableTS,
                 g: VariableTS, last: np.ndarray, first: np.ndarray, rate: Scalar, accuracy: float):
    known = np.array([np.atleast_1d(first), np.atleast_1d(rate), np.atleast_1d(first), np.atleast_1d(rate), np.atleast_1d(last)])
    return np.any(~np.isclose(known, 0, atol=accuracy), axis=0).astype(int), np.array([0])
