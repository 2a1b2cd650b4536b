"""The flow system: registering elements, unique labels, the time grid, the network; all parts reach the model"""
from typing import Dict, List, Optional, Union
import logging
import numpy as np
from flixOpt.components import Storage
from flixOpt.effects import Effect, EffectCollection, EffectCollectionModel
from flixOpt.elements import Bus, Component, ComponentModel, Flow, FlowModel
from flixOpt.flow_system import FlowSystem, create_datetime_array
from flixOpt.math_modeling import Equation, Inequation, MathModel, Variable, VariableTS
from flixOpt.structure import Element, ElementModel, SystemModel, create_equation, create_variable
from flixOpt import utils

logger = logging.getLogger('flixOpt')
LISTS = ['FlowSystem.flows', 'FlowSystem.buses', 'FlowSystem.all_elements']
REGISTER = ['Component.register_component_in_flows', 'Component.register_flows_in_bus', 'EffectCollection.add_effect']

OBLIGATIONS = [
    # ---- formulated exactly once
    dict(property='C22', name='models of all components, buses and effects', impl='impl_system_models',
         spec='spec_system_models', anchor='SystemModel.do_modeling', ordered=True, may_fail=False,
         opaque=['Component.create_model', 'Bus.create_model', 'EffectCollectionModel.do_modeling',
                 'ComponentModel.do_modeling', 'BusModel.do_modeling', 'FlowSystem.buses'], effects=['.*']),
    dict(property='C22', name='models of all flows of a component', impl='impl_component', spec='spec_component',
         anchor='ComponentModel.do_modeling', opaque=['Flow.create_model', 'FlowModel.do_modeling', 'OnOffModel.do_modeling',
                                                     'PreventSimultaneousUsageModel.do_modeling'],
         observe=['effects', 'return'],
         effects=['.*create_model', 'FlowModel.*'], may_fail=True),
    dict(property='C22', name='all models of the system', impl='impl_sub_models', spec='spec_sub_models', raw=True,
         anchor='SystemModel.sub_models', opaque=['ElementModel.all_sub_models'], effects=[], may_fail=False),
    dict(property='C22', name='nested models', impl='impl_nested', spec='spec_nested', raw=True,
         anchor='ElementModel.all_sub_models', effects=[], may_fail=False),
    dict(property='C22', name='all variables of the system', impl='impl_variables', spec='spec_variables', raw=True,
         anchor='SystemModel.all_variables', opaque=['SystemModel.sub_models'], effects=[], observe=['return', 'rejects']),
    dict(property='C22', name='all constraints of the system', impl='impl_constraints', spec='spec_constraints', raw=True,
         anchor='SystemModel.all_constraints', opaque=['SystemModel.sub_models'], effects=[], observe=['return']),
    dict(property='C22', name='variables and constraints of a model', impl='impl_own', spec='spec_own', raw=True,
         anchor='ElementModel.all_variables', opaque=[], effects=[], observe=['return']),
    dict(property='C22', name='variables and constraints of all levels', impl='impl_levels', spec='spec_levels', raw=True,
         anchor='ElementModel.all_equations', opaque=[], effects=[], observe=['return']),
    dict(property='C22', name='variables and constraints of a large model', impl='impl_large', spec='spec_large', raw=True, recurse=9,
         anchor='ElementModel.all_variables', effects=[], may_fail=False),
    dict(property='C23', name='labels of a large model', impl='impl_clash', spec='spec_clash', raw=True, recurse=9,
         anchor='ElementModel.all_variables', effects=[], observe=['rejects']),
    dict(property='C22', name='counts of the model', impl='impl_counts', spec='spec_counts', raw=True,
         anchor='MathModel.describe_size', opaque=['MathModel.variables', 'MathModel.equations', 'MathModel.inequations'],
         effects=[], may_fail=False),
    dict(property='C23', name='variables of a model have different labels', impl='impl_add_variables',
         spec='spec_add_variables', raw=True, anchor='ElementModel.add_variables', effects=['setitem'],
         observe=['effects', 'rejects']),
    dict(property='C23', name='constraints of a model have different labels', impl='impl_add_constraints',
         spec='spec_add_constraints', raw=True, anchor='ElementModel.add_constraints', effects=['setitem'],
         observe=['effects', 'rejects']),
    dict(property='C22', also=['C23'], name='many parts of an element', impl='impl_many_parts', spec='spec_many_parts', raw=True,
         anchor='ElementModel.add_variables', effects=[], may_fail=False),
    dict(property='C22', name='new variables', impl='impl_new_variable', spec='spec_new_variable', raw=True,
         anchor='create_variable', opaque=['ElementModel.add_variables'], may_fail=False, observe=['return', 'effects']),
    dict(property='C22', name='new constraints', impl='impl_new_equation', spec='spec_new_equation', raw=True,
         anchor='create_equation', opaque=['ElementModel.add_constraints'], may_fail=False, observe=['return', 'effects']),
    # ---- labels
    dict(property='C23', name='full labels', impl='impl_full_labels', spec='spec_full_labels', raw=True, anchor='Flow.label_full',
         effects=[], may_fail=False),
    dict(property='C23', name='components are unique', impl='impl_add_unique', spec='spec_add_unique', raw=True,
         anchor='FlowSystem.add_components', opaque=['FlowSystem.all_elements', 'label_is_valid'] + REGISTER,
         effects=[], observe=['rejects']),
    dict(property='C23', name='buses of a component are unique', impl='impl_two_buses', spec='spec_two_buses', raw=True,
         anchor='FlowSystem.add_components', opaque=['FlowSystem.all_elements', 'label_is_valid'] + REGISTER,
         effects=[], observe=['rejects']),
    dict(property='C23', name='effects are unique', impl='impl_effect_unique', spec='spec_effect_unique', raw=True,
         anchor='FlowSystem.add_effects', opaque=['FlowSystem.all_elements', 'EffectCollection.add_effect'], effects=[],
         observe=['rejects']),
    dict(property='C23', name='unique flows of a component', impl='impl_component_flows', spec='spec_component_flows',
         raw=True, anchor='Component.__init__', observe=['return', 'rejects'], opaque=['label_is_valid']),
    dict(property='C23', name='unique flows of any component', impl='impl_any_flows', spec='spec_any_flows',
         raw=True, anchor='Component.__init__', observe=['return', 'rejects'], opaque=['label_is_valid']),
    dict(property='C23', name='reserved labels', impl='impl_label', spec='spec_label', raw=True,
         anchor='Element.__init__', observe=['logs', 'return'], logs=True, may_fail=False),
    dict(property='C23', name='elements of a system', impl='impl_elements', spec='spec_elements', raw=True,
         anchor='FlowSystem.all_elements', effects=[], may_fail=False),
    # ---- adding
    dict(property='C35', name='components', impl='impl_add_component', spec='spec_add_component', raw=True,
         anchor='FlowSystem.add_components', opaque=['FlowSystem._check_if_element_is_unique'] + REGISTER,
         effects=['.*register.*', 'setitem'], observe=['effects']),
    dict(property='C35', name='effects', impl='impl_add_effect', spec='spec_add_effect', raw=True,
         anchor='FlowSystem.add_effects', opaque=['FlowSystem._check_if_element_is_unique'] + REGISTER,
         effects=['EffectCollection.*', 'setitem'], observe=['effects']),
    dict(property='C35', name='elements of all kinds', impl='impl_add', spec='spec_add', raw=True,
         anchor='FlowSystem.add_elements', opaque=['FlowSystem.add_components', 'FlowSystem.add_effects'],
         effects=['FlowSystem.*'], observe=['effects', 'rejects']),
    dict(property='C35', also=['C23', 'C36'], name='a large system', impl='impl_large_system', spec='spec_large_system', raw=True,
         anchor='FlowSystem.add_elements', effects=[], may_fail=False, opaque=['Interface.__str__']),
    dict(property='C35', name='many parts of a system', impl='impl_many_of_system', spec='spec_many_of_system', raw=True,
         anchor='FlowSystem.add_components', effects=[], may_fail=False, opaque=['=Interface.infos', '=Component.infos', '=Flow.infos']),
    dict(property='C23', name='labels of a large system', impl='impl_system_clash', spec='spec_system_clash', raw=True,
         anchor='FlowSystem._check_if_element_is_unique', effects=[], observe=['rejects']),
    dict(property='C35', name='flows know their component and buses their flows', impl='impl_register',
         spec='spec_register', raw=True, anchor='Component.register_flows_in_bus', effects=['append', 'setattr.*'],
         observe=['effects'], may_fail=False),
    dict(property='C35', name='lookups', impl='impl_lookups', spec='spec_lookups', raw=True, anchor='FlowSystem.flows',
         effects=[], may_fail=False),
    # ---- network
    dict(property='C36', name='nodes and edges', impl='impl_network', spec='spec_network', raw=True,
         anchor='FlowSystem.network_infos', effects=[], may_fail=False, opaque=['FlowSystem.flows', 'FlowSystem.buses', 'Interface.__str__']),
    dict(property='C36', name='direction of a flow', impl='impl_direction', spec='spec_direction', raw=True,
         anchor='Flow.is_input_in_comp', effects=[], may_fail=False),
    # ---- time
    dict(property='C24', name='time grid of a system', impl='impl_grid', spec='spec_grid', raw=True,
         anchor='FlowSystem.__init__', effects=[], opaque=['check_time_series'], observe=['return']),
    dict(property='C24', name='time data of selected steps', impl='impl_time_data', spec='spec_time_data', raw=True,
         anchor='FlowSystem.get_time_data_from_indices', effects=[], observe=['return', 'rejects']),
    dict(property='C24', name='time data of a model', impl='impl_model_time', spec='spec_model_time', raw=True,
         anchor='SystemModel.__init__', effects=[], opaque=['FlowSystem.get_time_data_from_indices'], may_fail=False),
    dict(property='C24', name='descending time stamps are rejected', impl='impl_check', spec='spec_check', raw=True,
         anchor='check_time_series', effects=[], observe=['rejects']),
    dict(property='C24', name='systems with descending time stamps are rejected', impl='impl_descending',
         spec='spec_descending', raw=True, anchor='FlowSystem.__init__', effects=[], observe=['rejects']),
    dict(property='C37', name='arrays of time stamps', impl='impl_array', spec='spec_array', raw=True,
         anchor='create_datetime_array', effects=[], observe=['return', 'rejects']),
]


def impl_system_models(m: SystemModel):
    m.do_modeling()
    return {'components': m.component_models, 'buses': m.bus_models}


def spec_system_models(m: SystemModel):
    m.effect_collection_model.do_modeling(m)
    components = [c.create_model() for c in m.flow_system.components.values()]
    buses = [b.create_model() for b in m.flow_system.buses.values()]
    for c in components:
        c.do_modeling(m)
    for b in buses:
        b.do_modeling(m)
    m.component_models, m.bus_models = components, buses
    return {'components': components, 'buses': buses}


def impl_component(c: Component, m: SystemModel):
    model = ComponentModel(c)
    model.do_modeling(m)


def spec_component(c: Component, m: SystemModel):
    models = [f.create_model() for f in c.inputs + c.outputs]
    for x in models:
        x.do_modeling(m)


def impl_sub_models(m: SystemModel):
    return m.sub_models


def spec_sub_models(m: SystemModel):
    top = [m.effect_collection_model] + m.component_models + m.bus_models + m.other_models
    below = []
    for x in top:
        below += x.all_sub_models
    return top + below


def nest(a: Element, b: Element, x: str, y: str):
    top, left, right, deep, deeper = ElementModel(a), ElementModel(a, x), ElementModel(b, y), ElementModel(b, x), ElementModel(a, y)
    top.sub_models.append(left)
    top.sub_models.append(right)
    left.sub_models.append(deep)
    deep.sub_models.append(deeper)
    return top, left, right, deep, deeper


def impl_nested(a: Element, b: Element, x: str, y: str):
    top, left, right, deep, deeper = nest(a, b, x, y)
    return BAG(top.all_sub_models), len(top.all_sub_models)


def spec_nested(a: Element, b: Element, x: str, y: str):
    top, left, right, deep, deeper = nest(a, b, x, y)
    return BAG([left, right, deep, deeper]), 4


def impl_variables(m: SystemModel):
    return {'all': m.all_variables, 'variables': m.variables}


def spec_variables(m: SystemModel):
    found = {}
    for x in m.sub_models:
        for label, v in x.variables.items():
            if label in found:
                raise KeyError('label used twice')
            found[label] = v
    return {'all': found, 'variables': list(found.values())}


def impl_constraints(m: SystemModel):
    return {'all': m.all_constraints, 'equations': m.equations, 'inequations': m.inequations}


def spec_constraints(m: SystemModel):
    found = {}
    for x in m.sub_models:
        for label, c in x.constraints.items():
            if label in found:
                raise KeyError('label used twice')
            found[label] = c
    return {'all': found, 'equations': [c for c in found.values() if isinstance(c, Equation)],
            'inequations': [c for c in found.values() if isinstance(c, Inequation)]}


def impl_own(a: Element, v: Variable, w: Variable, e: Equation, i: Inequation):
    top, sub = ElementModel(a), ElementModel(a, 'sub')
    top.sub_models.append(sub)
    top.add_variables(v)
    sub.add_variables(w)
    top.add_constraints(e)
    sub.add_constraints(i)
    return {'variables': top.all_variables, 'constraints': top.all_constraints, 'equations': top.all_equations,
            'inequations': top.all_inequations}


def spec_own(a: Element, v: Variable, w: Variable, e: Equation, i: Inequation):
    if v.label == w.label or e.label == i.label:
        raise KeyError('label used twice')
    return {'variables': {v.label: v, w.label: w}, 'constraints': {e.label: e, i.label: i}, 'equations': {e.label: e},
            'inequations': {i.label: i}}


def levels(a: Element, b: Element, vs, es, ns):
    for x in (vs, es, ns):
        ASSUME(x[0].label != x[1].label)
        ASSUME(x[0].label != x[2].label)
        ASSUME(x[1].label != x[2].label)
    for x in es:
        for y in ns:
            ASSUME(x.label != y.label)
    top, sub, deep = ElementModel(a), ElementModel(b, 'sub'), ElementModel(b, 'deep')
    top.sub_models.append(sub)
    sub.sub_models.append(deep)
    deep.add_variables(vs[0])
    sub.add_variables(vs[1])
    top.add_variables(vs[2])
    deep.add_constraints(es[0])
    sub.add_constraints(es[1])
    top.add_constraints(es[2])
    deep.add_constraints(ns[0])
    sub.add_constraints(ns[1])
    top.add_constraints(ns[2])
    return top


def impl_levels(a: Element, b: Element, v: Variable, w: Variable, u: Variable, e: Equation, f: Equation, g: Equation,
                i: Inequation, j: Inequation, k: Inequation):
    top = levels(a, b, [v, w, u], [e, f, g], [i, j, k])
    return {'variables': BAG(top.all_variables.values()), 'constraints': BAG(top.all_constraints.values()),
            'equations': BAG(top.all_equations.values()), 'inequations': BAG(top.all_inequations.values()),
            'names': BAG(top.all_variables.keys()), 'own': top.variables, 'own equations': top.equations,
            'own inequations': top.inequations}


def spec_levels(a: Element, b: Element, v: Variable, w: Variable, u: Variable, e: Equation, f: Equation, g: Equation,
                i: Inequation, j: Inequation, k: Inequation):
    levels(a, b, [v, w, u], [e, f, g], [i, j, k])
    return {'variables': BAG([v, w, u]), 'constraints': BAG([e, f, g, i, j, k]), 'equations': BAG([e, f, g]),
            'inequations': BAG([i, j, k]), 'names': BAG([v.label, w.label, u.label]), 'own': {u.label: u},
            'own equations': {g.label: g}, 'own inequations': {k.label: k}}


def large(a: Element, other: str):
    """seven models below the first one, a chain of seven below the last of these, seven variables and rows in every one"""
    top = ElementModel(a, 'm0')
    models, last = [top], top
    for i in range(1, 15):
        x = ElementModel(a, f'm{i}')
        (top if i < 8 else last).sub_models.append(x)
        models.append(x)
        last = x
    for x in models:
        for k in range(7):
            x.add_variables(Variable(f'{x.label}v{k}', 1))
            x.add_constraints(Equation(f'{x.label}e{k}'))
            x.add_constraints(Inequation(f'{x.label}i{k}'))
    last.add_variables(Variable(other, 1))
    last.add_constraints(Inequation(other))
    return top


def impl_large(a: Element):
    top = large(a, 'other')
    return {'variables': BAG((k, v.label) for k, v in top.all_variables.items()),
            'constraints': BAG((k, v.label) for k, v in top.all_constraints.items()),
            'equations': BAG((k, v.label) for k, v in top.all_equations.items()),
            'inequations': BAG((k, v.label) for k, v in top.all_inequations.items()),
            'own': [len(top.variables), len(top.equations), len(top.inequations)], 'models': BAG(x.label for x in top.all_sub_models)}


def spec_large(a: Element):
    names = {}
    for kind in 'vei':
        names[kind] = [f'm{i}{kind}{k}' for i in range(15) for k in range(7)]
    return {'variables': BAG((k, k) for k in names['v'] + ['other']),
            'constraints': BAG((k, k) for k in names['e'] + names['i'] + ['other']),
            'equations': BAG((k, k) for k in names['e']), 'inequations': BAG((k, k) for k in names['i'] + ['other']),
            'own': [7, 7, 7], 'models': BAG(f'm{i}' for i in range(1, 15))}


def impl_clash(a: Element, first: bool, kind: bool, clash: bool):
    top = large(a, ('m0' if first else 'm6') + ('v6' if kind else 'i6') if clash else 'other')
    return top.all_variables, top.all_constraints, top.all_inequations, top.all_equations


def spec_clash(a: Element, first: bool, kind: bool, clash: bool):
    if clash:
        raise KeyError('label used twice')


def impl_counts(m: MathModel):
    return [m.nr_of_variables, m.nr_of_constraints, m.nr_of_equations, m.nr_of_inequations, m.nr_of_single_variables,
            m.nr_of_single_equations, m.nr_of_single_inequations]


def spec_counts(m: MathModel):
    return [len(m.variables), len(m.equations) + len(m.inequations), len(m.equations), len(m.inequations),
            sum(v.length for v in m.variables), sum(e.length for e in m.equations), sum(e.length for e in m.inequations)]


def impl_add_variables(m: ElementModel, v: Variable):
    m.add_variables(v)


def spec_add_variables(m: ElementModel, v: Variable):
    if v.label in m.variables:
        raise Exception('label used')
    m.variables[v.label] = v


def impl_add_constraints(m: ElementModel, e: Equation):
    m.add_constraints(e)


def spec_add_constraints(m: ElementModel, e: Equation):
    if e.label in m.constraints:
        raise Exception('label used')
    m.constraints[e.label] = e


def impl_many_parts(b: Bus):
    m, sub = ElementModel(b, 'x'), ElementModel(b, 'y')
    nothing = [len(x) for x in (m.equations, m.inequations, m.all_variables, m.all_constraints, m.all_equations, m.all_inequations,
                                m.all_sub_models)]  # asked before: no matter
    m.sub_models.append(sub)
    sub.add_variables(Variable('own', 1))
    sub.add_constraints(Equation('equation', 'equation'), Inequation('inequation', 'inequation'))
    m.add_variables(*[Variable(f'v{k}', 1) for k in range(7)])
    m.add_constraints(*[Equation(f'e{k}', f'e{k}') for k in range(4)], *[Inequation(f'i{k}', f'i{k}') for k in range(4)])
    return (list(m.variables), list(m.constraints), list(m.equations), list(m.inequations), len(m.all_variables), len(m.all_constraints),
            len(m.all_equations), len(m.all_inequations), len(m.all_sub_models), nothing)


def spec_many_parts(b: Bus):
    e, i = [f'e{k}' for k in range(4)], [f'i{k}' for k in range(4)]
    return [f'v{k}' for k in range(7)], e + i, e, i, 8, 10, 5, 5, 1, [0, 0, 0, 0, 0, 0, 0]


def impl_new_variable(label: str, m: ElementModel, n: int, binary: bool, fixed, low, high, previous):
    v = create_variable(label, m, n, binary, fixed, low, high, previous)
    return {'label': v.label, 'short': v.label_short, 'length': v.length, 'binary': v.is_binary, 'lower': v.lower_bound,
            'upper': v.upper_bound, 'value': v.fixed_value, 'series': isinstance(v, VariableTS), 'previous': v.previous_values}


def spec_new_variable(label: str, m: ElementModel, n: int, binary: bool, fixed, low, high, previous):
    name = m.label_full + '_' + label
    v = (VariableTS(name, n, label, binary, fixed, low, high, previous) if n > 1
         else Variable(name, n, label, binary, fixed, low, high, previous))
    m.add_variables(v)
    return {'label': name, 'short': label or name, 'length': n, 'binary': binary, 'lower': low, 'upper': high, 'value': fixed,
            'series': n > 1, 'previous': previous}


def impl_new_equation(label: str, m: ElementModel):
    e = create_equation(label, m)
    i = create_equation(label, m, 'ineq')
    return {'eq': isinstance(e, Equation), 'ineq': isinstance(i, Inequation), 'eq label': e.label, 'ineq label': i.label,
            'objective': e.is_objective}


def spec_new_equation(label: str, m: ElementModel):
    name = m.label_full + '_' + label
    m.add_constraints(Equation(name, label))
    m.add_constraints(Inequation(name, label))
    return {'eq': True, 'ineq': True, 'eq label': name, 'ineq label': name, 'objective': False}


def impl_add_unique(s: FlowSystem, label: str, a: Flow):
    ASSUME(a.bus is not None)
    if a.bus.label_full in s.all_elements:
        ASSUME(s.all_elements[a.bus.label_full] is not None)
    s.add_components(Component(label, inputs=[a]))


def spec_add_unique(s: FlowSystem, label: str, a: Flow):
    known = s.all_elements
    ASSUME(a.bus is not None)
    if a.bus.label_full in known:
        ASSUME(known[a.bus.label_full] is not None)
    e = Component(label, inputs=[a])
    if e in known.values() or label in known:
        raise Exception('used')
    if a.bus.label_full == label:
        if a.bus is not e:
            raise Exception('used by a bus')
    elif a.bus.label_full in known and known[a.bus.label_full] is not a.bus:
        raise Exception('used by a bus')


def new_buses(s: FlowSystem, label: str, a: Flow, b: Flow):
    ASSUME(a.bus is not None)
    ASSUME(b.bus is not None)
    ASSUME(a.label != b.label)
    ASSUME(a.bus.label_full != label)
    ASSUME(b.bus.label_full != label)
    ASSUME(a.bus.label_full not in s.all_elements)
    ASSUME(b.bus.label_full not in s.all_elements)
    ASSUME(label not in s.all_elements)


def impl_two_buses(s: FlowSystem, label: str, a: Flow, b: Flow):
    new_buses(s, label, a, b)
    s.add_components(Component(label, inputs=[a], outputs=[b]))


def spec_two_buses(s: FlowSystem, label: str, a: Flow, b: Flow):
    new_buses(s, label, a, b)
    if Component(label, inputs=[a], outputs=[b]) in s.all_elements.values():
        raise Exception('used')
    if a.bus.label_full == b.bus.label_full and a.bus is not b.bus:
        raise Exception('two buses of one label')


def impl_effect_unique(s: FlowSystem, e: Effect):
    s.add_effects(e)


def spec_effect_unique(s: FlowSystem, e: Effect):
    if e in s.all_elements.values() or e.label_full in s.all_elements:
        raise Exception('used')


def impl_component_flows(label: str, a: Flow, b: Flow, c: Flow):
    x = Component(label, inputs=[a, b], outputs=[c])
    return {'inputs': x.inputs, 'outputs': x.outputs, 'flows': x.flows}


def spec_component_flows(label: str, a: Flow, b: Flow, c: Flow):
    if a.label == b.label or a.label == c.label or b.label == c.label:
        raise Exception('labels')
    return {'inputs': [a, b], 'outputs': [c], 'flows': {a.label: a, b.label: b, c.label: c}}


def impl_any_flows(label: str, ins: List[Flow], outs: List[Flow]):
    x = Component(label, ins, outs)
    return {'inputs': x.inputs, 'outputs': x.outputs}


def spec_any_flows(label: str, ins: List[Flow], outs: List[Flow]):
    ins, outs = ins or [], outs or []
    if len({f.label: f for f in ins + outs}) != len(ins + outs):
        raise Exception('labels')
    return {'inputs': ins, 'outputs': outs}


def impl_label(label: str):
    return Element(label).label


def spec_label(label: str):
    if label.startswith('_') or label.endswith('_') or '__' in label:
        logger.critical('reserved')
    return label


def impl_elements(s: FlowSystem):
    return s.all_elements


def spec_elements(s: FlowSystem):
    return {**s.components, **s.effect_collection.effects, **s.flows, **s.buses}


def impl_add_component(s: FlowSystem, a: Component, b: Component):
    s.add_components(a, b)


def spec_add_component(s: FlowSystem, a: Component, b: Component):
    for c in (a, b):
        c.register_component_in_flows()
        c.register_flows_in_bus()
        s.components[c.label] = c


def impl_add_effect(s: FlowSystem, a: Effect, b: Effect):
    s.add_effects(a, b)


def spec_add_effect(s: FlowSystem, a: Effect, b: Effect):
    s.effect_collection.add_effect(a)
    s.effect_collection.add_effect(b)


def impl_add(s: FlowSystem, e: Element, f: Element):
    s.add_elements(e, f)


def spec_add(s: FlowSystem, e: Element, f: Element):
    for x in (e, f):
        if isinstance(x, Component):
            s.add_components(x)
        elif isinstance(x, Effect):
            s.add_effects(x)
        else:
            raise Exception('not an element')


def impl_register(c: Component):
    c.register_component_in_flows()
    c.register_flows_in_bus()


def spec_register(c: Component):
    for f in c.inputs:
        f.comp = c
        f.bus.outputs.append(f)
    for f in c.outputs:
        f.comp = c
        f.bus.inputs.append(f)


def impl_lookups(s: FlowSystem):
    return {'flows': s.flows, 'buses': s.buses}


def spec_lookups(s: FlowSystem):
    flows, buses = {}, {}
    for c in s.components.values():
        for f in c.inputs + c.outputs:
            flows[f.label_full] = f
    for f in flows.values():
        buses[f.bus.label] = f.bus
    return {'flows': flows, 'buses': buses}


def impl_network(s: FlowSystem):
    nodes, edges = s.network_infos()
    return {'nodes': nodes, 'edges': edges}


def spec_network(s: FlowSystem):
    nodes, edges = {}, {}
    for c in s.components.values():
        nodes[c.label_full] = {'label': c.label, 'class': 'Bus' if isinstance(c, Bus) else 'Component', 'infos': c.__str__()}
    for b in s.buses.values():
        nodes[b.label_full] = {'label': b.label, 'class': 'Bus' if isinstance(b, Bus) else 'Component', 'infos': b.__str__()}
    for f in s.flows.values():
        here, there = f.comp.label_full, f.bus.label_full
        edges[f.label_full] = {'label': f.label, 'start': there if f.is_input_in_comp else here,
                               'end': here if f.is_input_in_comp else there, 'infos': f.__str__()}
    return {'nodes': nodes, 'edges': edges}


def impl_direction(f: Flow):
    return f.is_input_in_comp


def spec_direction(f: Flow):
    return f in f.comp.inputs


def impl_grid(stamps: np.ndarray, last: Optional[float], before: Optional[float]):
    ASSUME(isinstance(stamps, np.ndarray) and stamps.dtype != np.dtype('datetime64[ns]'))
    s = FlowSystem(stamps, last, before)
    return {'stamps': s.time_series, 'with end': s.time_series_with_end, 'before': s.previous_dt_in_hours}


def spec_grid(stamps: np.ndarray, last: Optional[float], before: Optional[float]):
    ASSUME(isinstance(stamps, np.ndarray) and stamps.dtype != np.dtype('datetime64[ns]'))
    if last is None:
        end = stamps[-1] - stamps[-2]
        if not isinstance(end, np.timedelta64):
            end = np.timedelta64(round(end * 3600 * 1e6), 'us')
    else:
        end = last
        if not isinstance(last, np.timedelta64):
            end = np.timedelta64(round(last * 3600 * 1e6), 'us')
    return {'stamps': stamps, 'with end': np.append(stamps, stamps[-1] + end),
            'before': (stamps[1] - stamps[0]) / np.timedelta64(1, 'h') if before is None else before}


def impl_time_data(s: FlowSystem, steps: Optional[List[int]]):
    stamps, with_end, dt, total = s.get_time_data_from_indices(steps)
    return {'stamps': stamps, 'with end': with_end, 'dt': dt, 'total': total}


def spec_time_data(s: FlowSystem, steps: Optional[List[int]]):
    chosen = range(len(s.time_series)) if steps is None else steps
    stamps = s.time_series[chosen]
    if chosen[-1] + 1 >= len(s.time_series_with_end):
        raise IndexError('beyond the end')
    with_end = np.append(stamps, s.time_series_with_end[chosen[-1] + 1])
    dt = (with_end[1:] - with_end[:-1]) / np.timedelta64(1, 'h')
    return {'stamps': stamps, 'with end': with_end, 'dt': dt, 'total': np.sum(dt)}


def impl_model_time(label: str, s: FlowSystem, steps: Optional[List[int]]):
    m = SystemModel(label, 'pyomo', s, steps)
    return {'stamps': m.time_series, 'with end': m.time_series_with_end, 'dt': m.dt_in_hours,
            'total': m.dt_in_hours_total, 'before': m.previous_dt_in_hours, 'n': m.nr_of_time_steps, 'indices': m.indices}


def spec_model_time(label: str, s: FlowSystem, steps: Optional[List[int]]):
    stamps, with_end, dt, total = s.get_time_data_from_indices(steps)
    return {'stamps': stamps, 'with end': with_end, 'dt': dt, 'total': total, 'before': s.previous_dt_in_hours,
            'n': len(stamps), 'indices': range(len(stamps))}


def impl_check(label: str, stamps: np.ndarray):
    utils.check_time_series(label, stamps)


def spec_check(label: str, stamps: np.ndarray):
    if np.min((stamps[1:] - stamps[:-1]) / np.timedelta64(1, 'h')) < 0:
        raise Exception('back in time')


def impl_descending(stamps: np.ndarray, last: float, before: float):
    ASSUME(isinstance(stamps, np.ndarray) and stamps.dtype != np.dtype('datetime64[ns]'))
    ASSUME(not isinstance(last, np.timedelta64))
    FlowSystem(stamps, last, before)


def spec_descending(stamps: np.ndarray, last: float, before: float):
    ASSUME(isinstance(stamps, np.ndarray) and stamps.dtype != np.dtype('datetime64[ns]'))
    ASSUME(not isinstance(last, np.timedelta64))
    spec_check('', np.append(stamps, stamps[-1] + np.timedelta64(round(last * 3600 * 1e6), 'us')))


def impl_array(start: str, steps: Optional[int], freq: str, end: Optional[str]):
    return create_datetime_array(start, steps, freq, end)


def spec_array(start: str, steps: Optional[int], freq: str, end: Optional[str]):
    width = np.timedelta64(int(freq[:-1]) if freq[:-1].isdigit() else 1, freq[-1])
    first = np.datetime64(start)
    if end:
        return np.arange(first, np.datetime64(end), width)
    if not steps:
        raise ValueError('no end')
    return np.array([first + i * width for i in range(steps)], dtype='datetime64')


def impl_full_labels(f: Flow, e: Effect, c: Component, b: Bus):
    return f.label_full, e.label_full, c.label_full, b.label_full


def spec_full_labels(f: Flow, e: Effect, c: Component, b: Bus):
    return ('unknownComp' if f.comp is None else f.comp.label) + '__' + f.label, e.label, c.label, b.label


def large_parts(last_bus: str, last_component: str, last_effect: str):
    buses = [Bus(f'b{i}') for i in range(6)] + [Bus(last_bus)]
    components = []
    for i in range(7):
        name = f'c{i}' if i < 6 else last_component
        components.append(Component(name, inputs=[Flow(f'in{k}', bus=buses[k], size=9) for k in range(7)],
                                    outputs=[Flow(f'out{k}', bus=buses[6 - k], size=9) for k in range(7)]))
    effects = [Effect(f'e{i}', 'kg', '', is_standard=i == 2, is_objective=i == 3) for i in range(6)] + [Effect(last_effect, 'kg', '')]
    return buses, components, effects


def impl_large_system(s: FlowSystem):
    s.components, s.effect_collection, s.model = {}, EffectCollection('Effects'), None
    buses, components, effects = large_parts('b6', 'c6', 'e6')
    s.add_elements(components[0], effects[0], components[1], effects[1], effects[2], components[2], components[3], components[4],
                   effects[3], effects[4], effects[5], components[5], effects[6], components[6])
    nodes, edges = s.network_infos()
    return {'components': list(s.components), 'buses': BAG(list(s.buses)), 'effects': list(s.effect_collection.effects),
            'flows': BAG(list(s.flows)), 'elements': BAG(list(s.all_elements)), 'standard': s.effect_collection.standard_effect.label,
            'objective': s.effect_collection.objective_effect.label, 'nodes': BAG(list(nodes)),
            'edges': BAG((k, e['start'], e['end']) for k, e in edges.items()),
            'of bus': [(BAG(f.label_full for f in b.inputs), BAG(f.label_full for f in b.outputs)) for b in buses]}


def spec_large_system(s: FlowSystem):
    components, buses, effects = [f'c{i}' for i in range(7)], [f'b{i}' for i in range(7)], [f'e{i}' for i in range(7)]
    inside = [(f'{c}__in{k}', f'b{k}', c) for c in components for k in range(7)]
    outside = [(f'{c}__out{k}', c, f'b{6 - k}') for c in components for k in range(7)]
    flows = [f[0] for f in inside + outside]
    return {'components': components, 'buses': BAG(buses), 'effects': effects, 'flows': BAG(flows),
            'elements': BAG(components + buses + effects + flows), 'standard': 'e2', 'objective': 'e3',
            'nodes': BAG(components + buses), 'edges': BAG(inside + outside),
            'of bus': [(BAG(f'{c}__out{6 - k}' for c in components), BAG(f'{c}__in{k}' for c in components)) for k in range(7)]}


def impl_many_of_system(s: FlowSystem):
    s.components, s.effect_collection, s.model = {}, EffectCollection('Effects'), None
    buses, components, effects = large_parts('b6', 'c6', 'e6')
    s.add_components(*components)
    s.add_effects(*effects)
    told = s.infos()
    return (list(s.components), list(s.effect_collection.effects), len(s.flows), len(s.buses), len(s.all_elements),
            BAG(list(told['Components'])), BAG(list(told['Buses'])), BAG(list(told['Effects'])))


def spec_many_of_system(s: FlowSystem):
    return [f'c{i}' for i in range(7)], [f'e{i}' for i in range(7)], 98, 7, 119, \
        BAG([f'c{i}' for i in range(7)]), BAG([f'b{i}' for i in range(7)]), BAG([f'e{i}' for i in range(7)])


def impl_system_clash(s: FlowSystem, bus: bool, component: bool, effect: bool):
    s.components, s.effect_collection, s.model = {}, EffectCollection('Effects'), None
    if bus:
        buses, components, effects = large_parts('b3', 'c6', 'e6')
    elif component:
        buses, components, effects = large_parts('b6', 'b2', 'e6')
    elif effect:
        buses, components, effects = large_parts('b6', 'c6', 'c5')
    else:
        buses, components, effects = large_parts('b6', 'c6', 'e6')
    s.add_elements(*components, *effects)


def spec_system_clash(s: FlowSystem, bus: bool, component: bool, effect: bool):
    if bus or component or effect:
        raise Exception('label used twice')
