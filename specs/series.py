"""Time series: active values, creation from user data, and which user data become time series"""
from typing import Dict, List, Optional, Union
import numpy as np
from flixOpt import utils
from flixOpt.components import LinearConverter, Sink, Source, SourceAndSink, Storage, Transmission
from flixOpt.core import TimeSeries, TimeSeriesData
from flixOpt.effects import Effect, effect_values_to_time_series, as_effect_dict
from flixOpt.elements import Bus, Component, Flow
from flixOpt.flow_system import FlowSystem
from flixOpt.interface import InvestParameters, OnOffParameters
from flixOpt.structure import Element, _create_time_series

SEEN = ['TimeSeries.active_data', 'TimeSeries.active_data_vector', 'TimeSeries.is_scalar', 'TimeSeries.is_array']
MAKE = ['_create_time_series', 'effect_values_to_time_series']

OBLIGATIONS = [
    # ---- values
    dict(property='C25', name='active value', impl='impl_active', spec='spec_active', anchor='TimeSeries.active_data',
         raw=True, transparent=SEEN, effects=[], may_fail=False),
    dict(property='C25', name='active value as a vector', impl='impl_vector', spec='spec_vector',
         anchor='TimeSeries.active_data_vector', raw=True, transparent=['TimeSeries.active_data_vector'],
         opaque=['TimeSeries.active_data'], effects=[], observe=['return', 'rejects']),
    dict(property='C25', name='selecting and aggregating', impl='impl_activate', spec='spec_activate',
         anchor='TimeSeries.activate_indices', raw=True, transparent=SEEN, observe=['effects', 'rejects'], effects=['setattr.*'],
         opaque=['TimeSeries.make_scalar_if_possible']),
    dict(property='C25', name='selecting again after an aggregation', impl='impl_history', spec='spec_history',
         anchor='TimeSeries.activate_indices', raw=True, transparent=SEEN, observe=['return'],
         opaque=['TimeSeries.make_scalar_if_possible'], may_fail=True),
    dict(property='C25', name='constant series', impl='impl_scalar', spec='spec_scalar',
         anchor='TimeSeries.make_scalar_if_possible', raw=True, effects=[], may_fail=False),
    dict(property='C25', name='creation', also=['C43'], impl='impl_creation', spec='spec_creation', anchor='TimeSeries.__init__',
         raw=True, transparent=SEEN, observe=['return'], may_fail=False, opaque=['TimeSeries.make_scalar_if_possible']),
    dict(property='C25', name='kind of a series', impl='impl_kind', spec='spec_kind', anchor='TimeSeries.is_array',
         raw=True, transparent=SEEN, effects=[], may_fail=False),
    dict(property='C43', name='weights of a series', impl='impl_weights', spec='spec_weights',
         anchor='TimeSeriesData.__init__', raw=True, observe=['return', 'rejects']),
    # ---- from user data
    dict(property='C26', name='a time series for each value', also=['C43'], impl='impl_make', spec='spec_make',
         anchor='_create_time_series', raw=True, transparent=SEEN, observe=['return', 'effects'],
         effects=['setattr.*', 'append'], opaque=['TimeSeries.clear_indices_and_aggregated_data'], may_fail=False),
    dict(property='C26', name='an existing time series is reset', impl='impl_reset', spec='spec_reset',
         anchor='_create_time_series', raw=True, transparent=SEEN, observe=['return', 'effects'], effects=['setattr.*', 'append'], may_fail=False),
    dict(property='C26', name='bus', impl='impl_bus', spec='spec_bus', anchor='Bus.transform_data', raw=True,
         opaque=MAKE, effects=['setattr.*'], may_fail=False),
    dict(property='C26', name='flow', impl='impl_flow', spec='spec_flow', anchor='Flow.transform_data', raw=True,
         opaque=MAKE + ['OnOffParameters.transform_data', 'InvestParameters.transform_data'],
         effects=['setattr.*', '.*transform_data'], may_fail=False),
    dict(property='C26', name='component', impl='impl_component', spec='spec_component', anchor='Component.transform_data',
         raw=True, opaque=MAKE + ['OnOffParameters.transform_data'], effects=['setattr.*', '.*transform_data'], may_fail=False),
    dict(property='C26', name='converter', impl='impl_converter', spec='spec_converter', raw=True,
         anchor='LinearConverter.transform_data', opaque=MAKE + ['OnOffParameters.transform_data'],
         effects=['setattr.*', '.*transform_data'], may_fail=False),
    dict(property='C26', name='storage', impl='impl_storage', spec='spec_storage', raw=True, anchor='Storage.transform_data',
         opaque=MAKE + ['OnOffParameters.transform_data', 'InvestParameters.transform_data'],
         effects=['setattr.*', '.*transform_data'], may_fail=False),
    dict(property='C26', name='transmission', impl='impl_transmission', spec='spec_transmission', raw=True,
         anchor='Transmission.transform_data', opaque=MAKE + ['OnOffParameters.transform_data'],
         effects=['setattr.*', '.*transform_data'], may_fail=False),
    dict(property='C26', name='effect', impl='impl_effect', spec='spec_effect', raw=True, anchor='Effect.transform_data',
         opaque=MAKE, effects=['setattr.*'], may_fail=False),
    dict(property='C26', name='on/off parameters', impl='impl_onoff', spec='spec_onoff', raw=True,
         anchor='OnOffParameters.transform_data', opaque=MAKE, effects=['setattr.*'], may_fail=False),
    dict(property='C26', name='investment parameters', impl='impl_invest', spec='spec_invest', raw=True,
         anchor='InvestParameters.transform_data', opaque=['as_effect_dict'], effects=['setattr.*'], may_fail=False),
    dict(property='C26', name='all elements of a system', impl='impl_all', spec='spec_all', raw=True,
         anchor='FlowSystem.transform_data', opaque=['FlowSystem.all_elements', 'Element.transform_data',
                                                    'Interface.transform_data'],
         effects=['.*transform_data'], may_fail=False),
]


def impl_active(t: TimeSeries):
    return t.active_data


def spec_active(t: TimeSeries):
    if t.aggregated_data is not None:
        return t.aggregated_data
    if np.isscalar(t.data) or t.data is None or t.active_indices is None:
        return t.data
    return t.data[t.active_indices]


def impl_vector(t: TimeSeries):
    return t.active_data_vector


def spec_vector(t: TimeSeries):
    n, value = len(t.active_indices), t.active_data
    if value is None:
        return np.array([None] * n)
    if np.isscalar(value):
        return value * np.ones(n)
    if len(value) != n:
        raise Exception('wrong length')
    return value if isinstance(value, np.ndarray) else np.array(value)


def impl_activate(t: TimeSeries, steps: List[int], values: Optional[np.ndarray]):
    t.activate_indices(steps, values)


def spec_activate(t: TimeSeries, steps: List[int], values: Optional[np.ndarray]):
    if values is not None and len(values) != len(steps) and len(values) != 1:
        raise AssertionError('wrong length')
    t.active_indices = steps
    if values is not None:
        t.aggregated_data = TimeSeries.make_scalar_if_possible(values)


def impl_history(label: str, data, first: List[int], values: np.ndarray, second: List[int]):
    t = TimeSeries(label, data)
    before = t.active_data
    t.activate_indices(first)
    selected = t.active_data
    t.activate_indices(first, values)
    aggregated = t.active_data
    t.clear_indices_and_aggregated_data()
    cleared = t.active_data
    t.activate_indices(second)
    return {'before': before, 'selected': selected, 'aggregated': aggregated, 'cleared': cleared, 'again': t.active_data}


def spec_history(label: str, data, first: List[int], values: np.ndarray, second: List[int]):
    if isinstance(data, TimeSeriesData):
        data = data.data
    data = TimeSeries.make_scalar_if_possible(data)
    values = TimeSeries.make_scalar_if_possible(values)
    single = np.isscalar(data) or data is None
    selected = data if single else data[first]
    return {'before': data, 'selected': selected, 'aggregated': values if values is not None else selected, 'cleared': data,
            'again': data if single else data[second]}


def impl_scalar(data):
    return TimeSeries.make_scalar_if_possible(data)


def spec_scalar(data):
    if data is None or np.isscalar(data):
        return data
    data = np.array(data)
    return data[0] if np.all(data == data[0]) else data


def impl_creation(label: str, data: np.ndarray, group: Optional[str], weight: Optional[float]):
    ASSUME(group is None or weight is None)
    given = TimeSeriesData(data, group, weight)
    a, b = TimeSeries(label, given), TimeSeries(label, data)
    return [(a.label, a.data, a.aggregation_group, a.aggregation_weight, a.active_indices, a.aggregated_data, given.label,
             given.data), (b.label, b.data, b.aggregation_group, b.aggregation_weight, b.active_indices, b.aggregated_data)]


def spec_creation(label: str, data: np.ndarray, group: Optional[str], weight: Optional[float]):
    ASSUME(group is None or weight is None)
    ASSUME(not isinstance(data, TimeSeriesData))
    value = TimeSeries.make_scalar_if_possible(data)
    return [(label, value, group, weight, None, None, label, data), (label, value, None, None, None, None)]


def impl_kind(t: TimeSeries):
    return {'scalar': t.is_scalar, 'array': t.is_array}


def spec_kind(t: TimeSeries):
    return {'scalar': np.isscalar(t.data), 'array': t.data is not None and not np.isscalar(t.data)}


def impl_weights(data, group: Optional[str], weight: Optional[float]):
    d = TimeSeriesData(data, group, weight)
    return d.data, d.agg_group, d.agg_weight


def spec_weights(data, group: Optional[str], weight: Optional[float]):
    if group is not None and weight is not None:
        raise Exception('both')
    return data, group, weight


def impl_make(label: str, value, e: Element):
    t = _create_time_series(label, value, e)
    return t


def spec_make(label: str, value, e: Element):
    if value is None:
        return None
    if isinstance(value, TimeSeries):
        value.clear_indices_and_aggregated_data()
        return value
    t = TimeSeries(e.label_full + '__' + label, value)
    e.used_time_series.append(t)
    return t


def impl_reset(label: str, value: TimeSeries, e: Element):
    return _create_time_series(label, value, e)


def spec_reset(label: str, value: TimeSeries, e: Element):
    value.active_indices = None
    value.aggregated_data = None
    return value


def impl_bus(b: Bus):
    b.transform_data()


def spec_bus(b: Bus):
    b.excess_penalty_per_flow_hour = _create_time_series('excess_penalty_per_flow_hour', b.excess_penalty_per_flow_hour, b)


def impl_flow(f: Flow):
    f.transform_data()


def spec_flow(f: Flow):
    f.relative_minimum = _create_time_series('relative_minimum', f.relative_minimum, f)
    f.relative_maximum = _create_time_series('relative_maximum', f.relative_maximum, f)
    f.fixed_relative_profile = _create_time_series('fixed_relative_profile', f.fixed_relative_profile, f)
    f.effects_per_flow_hour = effect_values_to_time_series('per_flow_hour', f.effects_per_flow_hour, f)
    if f.on_off_parameters is not None:
        f.on_off_parameters.transform_data(f)
    if isinstance(f.size, InvestParameters):
        f.size.transform_data()


def impl_component(c: Sink):
    c.transform_data()


def spec_component(c: Sink):
    if c.on_off_parameters is not None:
        c.on_off_parameters.transform_data(c)


def impl_converter(c: LinearConverter):
    c.transform_data()


def spec_converter(c: LinearConverter):
    if c.on_off_parameters is not None:
        c.on_off_parameters.transform_data(c)
    if c.conversion_factors:
        c.conversion_factors = [{f: _create_time_series(f.label + '_factor', v, c) for f, v in row.items()}
                                for row in c.conversion_factors]
    else:
        c.segmented_conversion_factors = {
            f: [(_create_time_series('Stuetzstelle', s[0], c), _create_time_series('Stuetzstelle', s[1], c)) for s in segments]
            for f, segments in c.segmented_conversion_factors.items()}


def impl_storage(s: Storage):
    s.transform_data()


def spec_storage(s: Storage):
    if s.on_off_parameters is not None:
        s.on_off_parameters.transform_data(s)
    s.relative_minimum_charge_state = _create_time_series('relative_minimum_charge_state', s.relative_minimum_charge_state, s)
    s.relative_maximum_charge_state = _create_time_series('relative_maximum_charge_state', s.relative_maximum_charge_state, s)
    s.eta_charge = _create_time_series('eta_charge', s.eta_charge, s)
    s.eta_discharge = _create_time_series('eta_discharge', s.eta_discharge, s)
    s.relative_loss_per_hour = _create_time_series('relative_loss_per_hour', s.relative_loss_per_hour, s)
    if isinstance(s.capacity_in_flow_hours, InvestParameters):
        s.capacity_in_flow_hours.transform_data()


def impl_transmission(t: Transmission):
    t.transform_data()


def spec_transmission(t: Transmission):
    if t.on_off_parameters is not None:
        t.on_off_parameters.transform_data(t)
    t.relative_losses = _create_time_series('relative_losses', t.relative_losses, t)
    t.absolute_losses = _create_time_series('absolute_losses', t.absolute_losses, t)


def impl_effect(e: Effect):
    e.transform_data()


def spec_effect(e: Effect):
    e.minimum_operation_per_hour = _create_time_series('minimum_operation_per_hour', e.minimum_operation_per_hour, e)
    e.maximum_operation_per_hour = _create_time_series('maximum_operation_per_hour', e.maximum_operation_per_hour, e)
    e.specific_share_to_other_effects_operation = effect_values_to_time_series(
        'specific_share_to_other_effects_operation', e.specific_share_to_other_effects_operation, e)


def impl_onoff(p: OnOffParameters, e: Element):
    p.transform_data(e)


def spec_onoff(p: OnOffParameters, e: Element):
    p.effects_per_switch_on = effect_values_to_time_series('per_switch_on', p.effects_per_switch_on, e)
    p.effects_per_running_hour = effect_values_to_time_series('per_running_hour', p.effects_per_running_hour, e)
    p.consecutive_on_hours_min = _create_time_series('consecutive_on_hours_min', p.consecutive_on_hours_min, e)
    p.consecutive_on_hours_max = _create_time_series('consecutive_on_hours_max', p.consecutive_on_hours_max, e)
    p.consecutive_off_hours_min = _create_time_series('consecutive_off_hours_min', p.consecutive_off_hours_min, e)
    p.consecutive_off_hours_max = _create_time_series('consecutive_off_hours_max', p.consecutive_off_hours_max, e)


def impl_invest(p: InvestParameters):
    p.transform_data()


def spec_invest(p: InvestParameters):
    p.fix_effects = as_effect_dict(p.fix_effects)
    p.divest_effects = as_effect_dict(p.divest_effects)
    p.specific_effects = as_effect_dict(p.specific_effects)


def impl_all(s: FlowSystem):
    s.transform_data()


def spec_all(s: FlowSystem):
    for e in s.all_elements.values():
        e.transform_data()
