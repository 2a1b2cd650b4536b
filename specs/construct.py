"""Constructors keep what the user gives; infos show it; implausible input is rejected"""
from datetime import datetime
from typing import Dict, List, Optional, Union
import inspect
import logging
import numpy as np
from flixOpt import utils
from flixOpt.components import LinearConverter, Sink, Source, SourceAndSink, Storage, Transmission
from flixOpt.config import CONFIG
from flixOpt.core import TimeSeries, TimeSeriesData
from flixOpt.effects import Effect
from flixOpt.elements import Bus, Component, Flow
from flixOpt.interface import InvestParameters, OnOffParameters
from flixOpt.linear_converters import (Boiler, CHP, CoolingTower, HeatPump, HeatPumpWithSource, Power2Heat, check_bounds)
from flixOpt.structure import Element, Interface, copy_and_convert_datatypes

logger = logging.getLogger('flixOpt')
INFOS = dict(property='C32', raw=True, observe=['return'], opaque=['copy_and_convert_datatypes'])
INFOS_F = dict(INFOS, may_fail=True)
INFOS_C = dict(INFOS_F, opaque=['copy_and_convert_datatypes', 'Flow.infos'])
INFOS_L = dict(INFOS_F, opaque=['copy_and_convert_datatypes', 'Flow.infos', 'check_bounds', 'LinearConverter._plausibility_checks'])
REJECT = dict(raw=True, observe=['rejects', 'return'], anchor='Element._plausibility_checks', opaque=['label_is_valid'])
RANGE = dict(property='C41', also=['C43'], raw=True, observe=['logs'], logs=True, anchor='check_bounds',
             opaque=['LinearConverter._plausibility_checks', 'Component', 'label_is_valid'])
RANGE_F = dict(RANGE, may_fail=True)
KEEP = dict(property='C32', also=['C42'], raw=True, observe=['return'])

OBLIGATIONS = [
    dict(name='component', impl='impl_component', spec='spec_component', anchor='Component.__init__', **KEEP),
    dict(name='bus', impl='impl_bus', spec='spec_bus', anchor='Bus.__init__', may_fail=False, **KEEP),
    dict(name='flow', impl='impl_flow', spec='spec_flow', anchor='Flow.__init__', **KEEP),
    dict(name='flow with defaults', impl='impl_flow0', spec='spec_flow0', anchor='Flow.__init__', **KEEP),
    dict(name='linear converter', impl='impl_converter', spec='spec_converter', anchor='LinearConverter.__init__', **KEEP),
    dict(name='storage', impl='impl_storage', spec='spec_storage', anchor='Storage.__init__', **KEEP),
    dict(name='storage with defaults', impl='impl_storage0', spec='spec_storage0', anchor='Storage.__init__', **KEEP),
    dict(name='source and sink', impl='impl_both', spec='spec_both', anchor='SourceAndSink.__init__', **KEEP),
    dict(name='source', impl='impl_source', spec='spec_source', anchor='Source.__init__', **KEEP),
    dict(name='sink', impl='impl_sink', spec='spec_sink', anchor='Sink.__init__', **KEEP),
    dict(name='effect', impl='impl_effect', spec='spec_effect', anchor='Effect.__init__', may_fail=True, **KEEP),
    dict(name='effect with defaults', impl='impl_effect0', spec='spec_effect0', anchor='Effect.__init__', **KEEP),
    dict(name='investment parameters', impl='impl_invest', spec='spec_invest', anchor='InvestParameters.__init__',
         transparent=['InvestParameters.minimum_size', 'InvestParameters.maximum_size'], **KEEP),
    dict(name='on/off parameters', impl='impl_onoff', spec='spec_onoff', anchor='OnOffParameters.__init__', **KEEP),
    # ---- what infos() shows
    dict(name='infos of a bus', impl='impl_bus_infos', spec='spec_bus_infos', anchor='Interface.infos', **INFOS),
    dict(name='infos of a flow', impl='impl_flow_infos', spec='spec_flow_infos', anchor='Flow.infos', **INFOS),
    dict(name='infos of a component', impl='impl_component_infos', spec='spec_component_infos', anchor='Component.infos', **INFOS_C),
    dict(name='infos of a converter', impl='impl_converter_infos', spec='spec_converter_infos', anchor='Component.infos', **INFOS_C),
    dict(name='infos of a storage', impl='impl_storage_infos', spec='spec_storage_infos', anchor='Component.infos', **INFOS_C),
    dict(name='infos of a transmission', impl='impl_transmission_infos', spec='spec_transmission_infos',
         anchor='Component.infos', **INFOS_C),
    dict(name='infos of sources and sinks', impl='impl_ends_infos', spec='spec_ends_infos', anchor='Component.infos', **INFOS_C),
    dict(name='infos of library converters', impl='impl_library_infos', spec='spec_library_infos', anchor='Component.infos',
         max_unroll=40, **INFOS_L),
    dict(name='infos of an effect', impl='impl_effect_infos', spec='spec_effect_infos', anchor='Interface.infos', **INFOS_F),
    dict(name='infos of investment parameters', impl='impl_invest_infos', spec='spec_invest_infos', anchor='Interface.infos',
         transparent=['InvestParameters.minimum_size', 'InvestParameters.maximum_size'], **INFOS),
    dict(name='infos of on/off parameters', impl='impl_onoff_infos', spec='spec_onoff_infos', anchor='Interface.infos', **INFOS),
    dict(property='C32', name='values shown by infos', impl='impl_values', spec='spec_values', raw=True, also=['C30'],
         anchor='copy_and_convert_datatypes', opaque=['Interface.infos'], observe=['return', 'rejects'], effects=[]),
    # ---- plausibility
    dict(property='C41', name='bounds of a flow', impl='impl_flow', spec='spec_flow', also=['C43'], **REJECT),
    dict(property='C41', name='converter', impl='impl_converter', spec='spec_converter', **REJECT),
    dict(property='C41', name='component', impl='impl_component', spec='spec_component', **REJECT),
    dict(property='C41', name='storage', impl='impl_storage', spec='spec_storage', **REJECT),
    dict(property='C41', name='reserved labels', impl='impl_label', spec='spec_label', raw=True, observe=['logs'], logs=True,
         anchor='Element.__init__'),
    dict(property='C41', name='circular shares of effects', impl='impl_circular', spec='spec_circular', raw=True,
         observe=['rejects'], anchor='Effect._plausibility_checks'),
    dict(property='C41', name='penalty of zero', impl='impl_zero', spec='spec_zero', raw=True, observe=['logs'], logs=True,
         opaque=['label_is_valid'], anchor='Bus._plausibility_checks'),
    dict(property='C41', name='profile without a size', impl='impl_sizeless', spec='spec_sizeless', raw=True, observe=['logs'],
         logs=True, opaque=['label_is_valid'], anchor='Flow._plausibility_checks'),
    dict(property='C41', name='efficiencies outside their range', also=['C43'], impl='impl_bounds', spec='spec_bounds', raw=True,
         observe=['logs'], logs=True, anchor='check_bounds'),
    dict(name='range of a boiler', impl='impl_r_boiler', spec='spec_r_boiler', **RANGE),
    dict(name='range of power to heat', impl='impl_r_p2h', spec='spec_r_p2h', **RANGE),
    dict(name='range of a heat pump', impl='impl_r_hp', spec='spec_r_hp', **RANGE),
    dict(name='range of a cooling tower', impl='impl_r_tower', spec='spec_r_tower', **RANGE_F),
    dict(name='range of a CHP', impl='impl_r_chp', spec='spec_r_chp', **RANGE),
    dict(name='range of a heat pump with source', impl='impl_r_hps', spec='spec_r_hps', **RANGE_F),
]


def described(classes, arguments, numpy, labels):
    d = {'class': classes}
    for name, value, default in arguments:
        if np.all(value == default) or isinstance(value, (dict, list)) and not value:
            continue
        d[name] = copy_and_convert_datatypes(value, numpy, labels)
    return d


def impl_bus_infos(label: str, penalty, meta: Optional[Dict], numpy: bool, labels: bool):
    return Bus(label, penalty, meta).infos(numpy, labels)


def spec_bus_infos(label: str, penalty, meta: Optional[Dict], numpy: bool, labels: bool):
    return described('Bus:Element:Interface:object', [
        ('label', label, inspect.Parameter.empty), ('excess_penalty_per_flow_hour', penalty, 1e5),
        ('meta_data', meta if meta is not None else {}, None)], numpy, labels)


def impl_flow_infos(c: Component, label: str, bus: Bus, size, profile, low, high, effects, onoff: Optional[OnOffParameters],
                    total_max, total_min, load_min, load_max, before, meta: Optional[Dict], numpy: bool, labels: bool):
    f = Flow(label, bus, size, profile, low, high, effects, onoff, total_max, total_min, load_min, load_max, before, meta)
    f.comp = c
    return f.infos(numpy, labels)


def spec_flow_infos(c: Component, label: str, bus: Bus, size, profile, low, high, effects, onoff: Optional[OnOffParameters],
                    total_max, total_min, load_min, load_max, before, meta: Optional[Dict], numpy: bool, labels: bool):
    f = Flow(label, bus, size, profile, low, high, effects, onoff, total_max, total_min, load_min, load_max, before, meta)
    d = described('Flow:Element:Interface:object', [
        ('label', label, inspect.Parameter.empty), ('bus', bus, inspect.Parameter.empty),
        ('effects_per_flow_hour', effects if effects is not None else {}, None), ('fixed_relative_profile', profile, None),
        ('flow_hours_total_max', total_max, None), ('flow_hours_total_min', total_min, None), ('load_factor_max', load_max, None),
        ('load_factor_min', load_min, None), ('meta_data', meta if meta is not None else {}, None),
        ('on_off_parameters', onoff, None), ('previous_flow_rate', before, None), ('relative_maximum', high, 1),
        ('relative_minimum', low, 0), ('size', size if size is not None else CONFIG.modeling.BIG, None)], numpy, labels)
    d['is_input_in_component'] = f in c.inputs
    return d


def attrs(x, names):
    return {n: getattr(x, n) for n in names}


def impl_component(label: str, inputs: Optional[List[Flow]], outputs: Optional[List[Flow]], onoff: Optional[OnOffParameters],
                   exclusive: Optional[List[Flow]], meta: Optional[Dict]):
    c = Component(label, inputs, outputs, onoff, exclusive, meta)
    return c.label, c.inputs, c.outputs, c.on_off_parameters, c.prevent_simultaneous_flows, c.meta_data, c.used_time_series, c.model


def spec_component(label: str, inputs: Optional[List[Flow]], outputs: Optional[List[Flow]], onoff: Optional[OnOffParameters],
                   exclusive: Optional[List[Flow]], meta: Optional[Dict]):
    a = inputs if inputs else []
    b = outputs if outputs else []
    if len({f.label for f in a + b}) != len(a + b):
        raise Exception('labels')
    return label, a, b, onoff, exclusive if exclusive else [], meta if meta is not None else {}, [], None


def impl_bus(label: str, penalty, meta: Optional[Dict]):
    a, b = Bus(label, penalty, meta), Bus(label)
    return [(x.label, x.excess_penalty_per_flow_hour, x.meta_data, x.inputs, x.outputs, x.used_time_series, x.with_excess)
            for x in (a, b)]


def spec_bus(label: str, penalty, meta: Optional[Dict]):
    return [(label, penalty, meta if meta is not None else {}, [], [], [], penalty is not None),
            (label, 1e5, {}, [], [], [], True)]


def impl_flow(label: str, bus: Bus, size, profile, low, high, effects, onoff: Optional[OnOffParameters], total_max, total_min,
              load_min, load_max, before, meta: Optional[Dict]):
    f = Flow(label, bus, size, profile, low, high, effects, onoff, total_max, total_min, load_min, load_max, before, meta)
    return {'label': f.label, 'bus': f.bus, 'size': f.size, 'profile': f.fixed_relative_profile, 'low': f.relative_minimum,
            'high': f.relative_maximum, 'effects': f.effects_per_flow_hour, 'on/off': f.on_off_parameters,
            'total max': f.flow_hours_total_max, 'total min': f.flow_hours_total_min, 'load min': f.load_factor_min,
            'load max': f.load_factor_max, 'before': f.previous_flow_rate, 'meta': f.meta_data, 'comp': f.comp}


def bare(x):
    return x.data if isinstance(x, TimeSeriesData) else x


def spec_flow(label: str, bus: Bus, size, profile, low, high, effects, onoff: Optional[OnOffParameters], total_max, total_min,
              load_min, load_max, before, meta: Optional[Dict]):
    if np.any(bare(low) > bare(high)):
        raise Exception('bounds cross')
    return {'label': label, 'bus': bus, 'size': size if size is not None else CONFIG.modeling.BIG, 'profile': profile,
            'low': low, 'high': high, 'effects': effects if effects is not None else {}, 'on/off': onoff,
            'total max': total_max, 'total min': total_min, 'load min': load_min, 'load max': load_max, 'before': before,
            'meta': meta if meta is not None else {}, 'comp': None}


def impl_flow0(label: str, bus: Bus):
    f = Flow(label, bus)
    return {'label': f.label, 'bus': f.bus, 'size': f.size, 'profile': f.fixed_relative_profile, 'low': f.relative_minimum,
            'high': f.relative_maximum, 'effects': f.effects_per_flow_hour, 'on/off': f.on_off_parameters,
            'total max': f.flow_hours_total_max, 'total min': f.flow_hours_total_min, 'load min': f.load_factor_min,
            'load max': f.load_factor_max, 'before': f.previous_flow_rate, 'meta': f.meta_data, 'comp': f.comp}


def spec_flow0(label: str, bus: Bus):
    return {'label': label, 'bus': bus, 'size': CONFIG.modeling.BIG, 'profile': None,
            'low': 0, 'high': 1, 'effects': {}, 'on/off': None, 'total max': None, 'total min': None, 'load min': None,
            'load max': None, 'before': None, 'meta': {}, 'comp': None}


def impl_converter(label: str, inputs: List[Flow], outputs: List[Flow], onoff: Optional[OnOffParameters],
                   factors: Optional[List[Dict]], segments: Optional[Dict], meta: Optional[Dict]):
    c = LinearConverter(label, inputs, outputs, onoff, factors, segments, meta)
    return {'label': c.label, 'inputs': c.inputs, 'outputs': c.outputs, 'on/off': c.on_off_parameters,
            'factors': c.conversion_factors, 'segments': c.segmented_conversion_factors, 'meta': c.meta_data}


def spec_converter(label: str, inputs: List[Flow], outputs: List[Flow], onoff: Optional[OnOffParameters],
                   factors: Optional[List[Dict]], segments: Optional[Dict], meta: Optional[Dict]):
    flows = inputs + outputs
    if len({f.label for f in flows}) != len(flows):
        raise Exception('labels')
    if not factors and not segments:
        raise Exception('one')
    if factors and segments:
        raise Exception('not both')
    if factors:
        if len(flows) - len(factors) <= 0:
            raise Exception('too many')
        for row in factors:
            for f in row:
                if f not in flows:
                    raise Exception('unknown')
    if segments:
        for f in flows:
            if isinstance(f.size, InvestParameters) and f.size.fixed_size is None:
                raise Exception('size')
    return {'label': label, 'inputs': inputs, 'outputs': outputs, 'on/off': onoff,
            'factors': factors if factors else [], 'segments': segments if segments else {},
            'meta': meta if meta is not None else {}}


def impl_storage(label: str, c: Flow, d: Flow, capacity, low, high, initial, final_min, final_max, eta_c, eta_d, loss,
                 exclusive: bool, meta: Optional[Dict]):
    s = Storage(label, c, d, capacity, low, high, initial, final_min, final_max, eta_c, eta_d, loss, exclusive, meta)
    return {'label': s.label, 'charging': s.charging, 'discharging': s.discharging, 'capacity': s.capacity_in_flow_hours,
            'low': s.relative_minimum_charge_state, 'high': s.relative_maximum_charge_state, 'initial': s.initial_charge_state,
            'min': s.minimal_final_charge_state, 'max': s.maximal_final_charge_state, 'eta_c': s.eta_charge,
            'eta_d': s.eta_discharge, 'loss': s.relative_loss_per_hour, 'inputs': s.inputs, 'outputs': s.outputs,
            'exclusive': s.prevent_simultaneous_flows, 'flag': s.prevent_simultaneous_charge_and_discharge,
            'meta': s.meta_data, 'on/off': s.on_off_parameters}


def spec_storage(label: str, c: Flow, d: Flow, capacity, low, high, initial, final_min, final_max, eta_c, eta_d, loss,
                 exclusive: bool, meta: Optional[Dict]):
    if c.label == d.label:
        raise Exception('labels')
    return {'label': label, 'charging': c, 'discharging': d, 'capacity': capacity,
            'low': low, 'high': high, 'initial': initial, 'min': final_min, 'max': final_max, 'eta_c': eta_c,
            'eta_d': eta_d, 'loss': loss, 'inputs': [c], 'outputs': [d],
            'exclusive': [c, d] if exclusive else [], 'flag': exclusive,
            'meta': meta if meta is not None else {}, 'on/off': None}


def impl_storage0(label: str, c: Flow, d: Flow, capacity):
    s = Storage(label, c, d, capacity)
    return {'label': s.label, 'charging': s.charging, 'discharging': s.discharging, 'capacity': s.capacity_in_flow_hours,
            'low': s.relative_minimum_charge_state, 'high': s.relative_maximum_charge_state, 'initial': s.initial_charge_state,
            'min': s.minimal_final_charge_state, 'max': s.maximal_final_charge_state, 'eta_c': s.eta_charge,
            'eta_d': s.eta_discharge, 'loss': s.relative_loss_per_hour, 'exclusive': s.prevent_simultaneous_flows}


def spec_storage0(label: str, c: Flow, d: Flow, capacity):
    if c.label == d.label:
        raise Exception('labels')
    return {'label': label, 'charging': c, 'discharging': d, 'capacity': capacity, 'low': 0, 'high': 1, 'initial': 0,
            'min': None, 'max': None, 'eta_c': 1, 'eta_d': 1, 'loss': 0, 'exclusive': [c, d]}


def impl_both(label: str, source: Flow, sink: Flow, exclusive: bool, meta: Optional[Dict]):
    s = SourceAndSink(label, source, sink, exclusive, meta)
    return {'label': s.label, 'source': s.source, 'sink': s.sink, 'inputs': s.inputs, 'outputs': s.outputs,
            'exclusive': s.prevent_simultaneous_flows, 'meta': s.meta_data}


def spec_both(label: str, source: Flow, sink: Flow, exclusive: bool, meta: Optional[Dict]):
    if source.label == sink.label:
        raise Exception('labels')
    return {'label': label, 'source': source, 'sink': sink, 'inputs': [sink], 'outputs': [source],
            'exclusive': [sink, source] if exclusive is True else [], 'meta': meta if meta is not None else {}}


def impl_source(label: str, source: Flow, meta: Optional[Dict]):
    s = Source(label, source, meta)
    return {'label': s.label, 'source': s.source, 'inputs': s.inputs, 'outputs': s.outputs, 'meta': s.meta_data}


def spec_source(label: str, source: Flow, meta: Optional[Dict]):
    return {'label': label, 'source': source, 'inputs': [], 'outputs': [source], 'meta': meta if meta is not None else {}}


def impl_sink(label: str, sink: Flow, meta: Optional[Dict]):
    s = Sink(label, sink, meta)
    return {'label': s.label, 'sink': s.sink, 'inputs': s.inputs, 'outputs': s.outputs, 'meta': s.meta_data}


def spec_sink(label: str, sink: Flow, meta: Optional[Dict]):
    return {'label': label, 'sink': sink, 'inputs': [sink], 'outputs': [], 'meta': meta if meta is not None else {}}


def effect_attributes(e):
    return {'label': e.label, 'unit': e.unit, 'description': e.description, 'meta': e.meta_data, 'standard': e.is_standard,
            'objective': e.is_objective, 'operation': e.specific_share_to_other_effects_operation,
            'invest': e.specific_share_to_other_effects_invest, 'op min': e.minimum_operation, 'op max': e.maximum_operation,
            'inv min': e.minimum_invest, 'inv max': e.maximum_invest, 'hour min': e.minimum_operation_per_hour,
            'hour max': e.maximum_operation_per_hour, 'min': e.minimum_total, 'max': e.maximum_total}


def impl_effect(label: str, unit: str, description: str, meta: Optional[Dict], standard: bool, objective: bool,
                operation: Optional[Dict[Effect, float]], invest: Optional[Dict[Effect, float]], op_min, op_max, inv_min, inv_max,
                hour_min, hour_max, total_min, total_max):
    return effect_attributes(Effect(label, unit, description, meta, standard, objective, operation, invest, op_min, op_max,
                                    inv_min, inv_max, hour_min, hour_max, total_min, total_max))


def spec_effect(label: str, unit: str, description: str, meta: Optional[Dict], standard: bool, objective: bool,
                operation: Optional[Dict[Effect, float]], invest: Optional[Dict[Effect, float]], op_min, op_max, inv_min, inv_max,
                hour_min, hour_max, total_min, total_max):
    return {'label': label, 'unit': unit, 'description': description, 'meta': meta if meta is not None else {},
            'standard': standard, 'objective': objective, 'operation': operation if operation else {},
            'invest': invest if invest else {}, 'op min': op_min, 'op max': op_max, 'inv min': inv_min, 'inv max': inv_max,
            'hour min': hour_min, 'hour max': hour_max, 'min': total_min, 'max': total_max}


def impl_effect0(label: str, unit: str, description: str):
    return effect_attributes(Effect(label, unit, description))


def spec_effect0(label: str, unit: str, description: str):
    return {'label': label, 'unit': unit, 'description': description, 'meta': {}, 'standard': False, 'objective': False,
            'operation': {}, 'invest': {}, 'op min': None, 'op max': None, 'inv min': None, 'inv max': None, 'hour min': None,
            'hour max': None, 'min': None, 'max': None}


def impl_invest(fixed: Optional[float], low: float, high: Optional[float], optional: bool, fix, specific, segments, divest):
    a = InvestParameters(fixed, low, high, optional, fix, specific, segments, divest)
    b = InvestParameters()
    return [{'fixed': p.fixed_size, 'low': p.minimum_size, 'high': p.maximum_size, 'optional': p.optional, 'fix': p.fix_effects,
             'specific': p.specific_effects, 'segments': p.effects_in_segments, 'divest': p.divest_effects} for p in (a, b)]


def spec_invest(fixed: Optional[float], low: float, high: Optional[float], optional: bool, fix, specific, segments, divest):
    big = CONFIG.modeling.BIG
    return [{'fixed': fixed, 'low': low if fixed is None else fixed,
             'high': fixed if fixed is not None else high if high is not None else big, 'optional': optional,
             'fix': fix if fix else {}, 'specific': specific if specific else {}, 'segments': segments,
             'divest': divest if divest else {}},
            {'fixed': None, 'low': 0, 'high': big, 'optional': True, 'fix': {}, 'specific': {}, 'segments': None, 'divest': {}}]


def impl_onoff(switch, hour, total_min, total_max, on_min, on_max, off_min, off_max, switches, force: bool):
    a = OnOffParameters(switch, hour, total_min, total_max, on_min, on_max, off_min, off_max, switches, force)
    b = OnOffParameters()
    return [{'switch': p.effects_per_switch_on, 'hour': p.effects_per_running_hour, 'total': (p.on_hours_total_min, p.on_hours_total_max),
             'on': (p.consecutive_on_hours_min, p.consecutive_on_hours_max),
             'off': (p.consecutive_off_hours_min, p.consecutive_off_hours_max), 'switches': p.switch_on_total_max,
             'force': p.force_switch_on} for p in (a, b)]


def spec_onoff(switch, hour, total_min, total_max, on_min, on_max, off_min, off_max, switches, force: bool):
    return [{'switch': switch if switch is not None else {}, 'hour': hour if hour is not None else {},
             'total': (total_min, total_max), 'on': (on_min, on_max), 'off': (off_min, off_max), 'switches': switches,
             'force': force},
            {'switch': {}, 'hour': {}, 'total': (None, None), 'on': (None, None), 'off': (None, None), 'switches': None,
             'force': False}]


def listed(d, inputs, outputs, numpy, labels):
    d['inputs'] = [f.infos(numpy, labels) for f in inputs]
    d['outputs'] = [f.infos(numpy, labels) for f in outputs]
    return d


def impl_component_infos(label: str, inputs: List[Flow], outputs: List[Flow], onoff: Optional[OnOffParameters],
                         exclusive: Optional[List[Flow]], meta: Optional[Dict], numpy: bool, labels: bool):
    return Component(label, inputs, outputs, onoff, exclusive, meta).infos(numpy, labels)


def spec_component_infos(label: str, inputs: List[Flow], outputs: List[Flow], onoff: Optional[OnOffParameters],
                         exclusive: Optional[List[Flow]], meta: Optional[Dict], numpy: bool, labels: bool):
    return listed(described('Component:Element:Interface:object', [
        ('label', label, inspect.Parameter.empty), ('meta_data', meta if meta is not None else {}, None),
        ('on_off_parameters', onoff, None),
        ('prevent_simultaneous_flows', exclusive if exclusive is not None else [], None)], numpy, labels),
        inputs, outputs, numpy, labels)


def impl_converter_infos(label: str, inputs: List[Flow], outputs: List[Flow], onoff: Optional[OnOffParameters],
                         factors: List[Dict], meta: Optional[Dict], numpy: bool, labels: bool):
    return LinearConverter(label, inputs, outputs, onoff, factors, meta_data=meta).infos(numpy, labels)


def spec_converter_infos(label: str, inputs: List[Flow], outputs: List[Flow], onoff: Optional[OnOffParameters],
                         factors: List[Dict], meta: Optional[Dict], numpy: bool, labels: bool):
    return listed(described('LinearConverter:Component:Element:Interface:object', [
        ('label', label, inspect.Parameter.empty), ('meta_data', meta if meta is not None else {}, None),
        ('on_off_parameters', onoff, None), ('conversion_factors', factors, None)], numpy, labels),
        inputs, outputs, numpy, labels)


def impl_storage_infos(label: str, c: Flow, d: Flow, capacity, low, high, initial, final_min, final_max, eta_c, eta_d, loss,
                       exclusive: bool, meta: Optional[Dict], numpy: bool, labels: bool):
    s = Storage(label, c, d, capacity, low, high, initial, final_min, final_max, eta_c, eta_d, loss, exclusive, meta)
    return s.infos(numpy, labels)


def spec_storage_infos(label: str, c: Flow, d: Flow, capacity, low, high, initial, final_min, final_max, eta_c, eta_d, loss,
                       exclusive: bool, meta: Optional[Dict], numpy: bool, labels: bool):
    return listed(described('Storage:Component:Element:Interface:object', [
        ('label', label, inspect.Parameter.empty), ('charging', c, inspect.Parameter.empty),
        ('discharging', d, inspect.Parameter.empty), ('capacity_in_flow_hours', capacity, inspect.Parameter.empty),
        ('relative_minimum_charge_state', low, 0), ('relative_maximum_charge_state', high, 1),
        ('initial_charge_state', initial, 0), ('minimal_final_charge_state', final_min, None),
        ('maximal_final_charge_state', final_max, None), ('eta_charge', eta_c, 1), ('eta_discharge', eta_d, 1),
        ('relative_loss_per_hour', loss, 0), ('prevent_simultaneous_charge_and_discharge', exclusive, True),
        ('meta_data', meta if meta is not None else {}, None)], numpy, labels), [c], [d], numpy, labels)


def impl_transmission_infos(label: str, in1: Flow, out1: Flow, in2: Flow, out2: Flow, relative, absolute,
                            onoff: Optional[OnOffParameters], exclusive: bool, numpy: bool, labels: bool):
    return Transmission(label, in1, out1, in2, out2, relative, absolute, onoff, exclusive).infos(numpy, labels)


def spec_transmission_infos(label: str, in1: Flow, out1: Flow, in2: Flow, out2: Flow, relative, absolute,
                            onoff: Optional[OnOffParameters], exclusive: bool, numpy: bool, labels: bool):
    return listed(described('Transmission:Component:Element:Interface:object', [
        ('label', label, inspect.Parameter.empty), ('in1', in1, inspect.Parameter.empty), ('in2', in2, None),
        ('out1', out1, inspect.Parameter.empty), ('out2', out2, None), ('relative_losses', relative, None),
        ('absolute_losses', absolute, None), ('on_off_parameters', onoff, None),
        ('prevent_simultaneous_flows_in_both_directions', exclusive, True)], numpy, labels),
        [in1, in2], [out1, out2], numpy, labels)


def impl_ends_infos(label: str, a: Flow, b: Flow, meta: Optional[Dict], numpy: bool, labels: bool):
    return [x.infos(numpy, labels) for x in (Source(label, a, meta), Sink(label, b, meta))]


def spec_ends_infos(label: str, a: Flow, b: Flow, meta: Optional[Dict], numpy: bool, labels: bool):
    common = [('label', label, inspect.Parameter.empty), ('meta_data', meta if meta is not None else {}, None)]
    return [listed(described('Source:Component:Element:Interface:object', common + [('source', a, inspect.Parameter.empty)],
                             numpy, labels), [], [a], numpy, labels),
            listed(described('Sink:Component:Element:Interface:object', common + [('sink', b, inspect.Parameter.empty)],
                             numpy, labels), [b], [], numpy, labels)]


def impl_library_infos(label: str, a: Flow, b: Flow, c: Flow, eta: float, share: float, onoff: Optional[OnOffParameters],
                       meta: Optional[Dict], numpy: bool, labels: bool):
    return [x.infos(numpy, labels) for x in (
        Boiler(label, eta, a, b, onoff, meta), Power2Heat(label, eta, a, b, onoff, meta), HeatPump(label, eta, a, b, onoff, meta),
        CoolingTower(label, eta, a, b, onoff, meta), CHP(label, eta, share, a, b, c, onoff, meta),
        HeatPumpWithSource(label, eta, a, b, c, onoff, meta))]


def spec_library_infos(label: str, a: Flow, b: Flow, c: Flow, eta: float, share: float, onoff: Optional[OnOffParameters],
                       meta: Optional[Dict], numpy: bool, labels: bool):
    common = [('label', label, inspect.Parameter.empty), ('meta_data', meta if meta is not None else {}, None),
              ('on_off_parameters', onoff, None)]
    return [
        library('Boiler', common, [('eta', eta), ('Q_fu', a), ('Q_th', b)], [a], [b], numpy, labels),
        library('Power2Heat', common, [('eta', eta), ('P_el', a), ('Q_th', b)], [a], [b], numpy, labels),
        library('HeatPump', common, [('COP', eta), ('P_el', a), ('Q_th', b)], [a], [b], numpy, labels),
        library('CoolingTower', common, [('specific_electricity_demand', eta), ('P_el', a), ('Q_th', b)], [a, b], [], numpy, labels),
        library('CHP', common, [('eta_th', eta), ('eta_el', share), ('Q_fu', a), ('P_el', b), ('Q_th', c)], [a], [c, b], numpy, labels),
        library('HeatPumpWithSource', common, [('COP', eta), ('P_el', a), ('Q_ab', b), ('Q_th', c)], [a, b], [c], numpy, labels),
    ]


def library(name, common, own, inputs, outputs, numpy, labels):
    return listed(described(name + ':LinearConverter:Component:Element:Interface:object',
                            common + [(k, v, inspect.Parameter.empty) for k, v in own], numpy, labels),
                  inputs, outputs, numpy, labels)


def impl_effect_infos(label: str, unit: str, description: str, meta: Optional[Dict], standard: bool, objective: bool,
                      operation: Optional[Dict[Effect, float]], invest: Optional[Dict[Effect, float]], op_min, op_max, inv_min,
                      inv_max, hour_min, hour_max, total_min, total_max, numpy: bool, labels: bool):
    return Effect(label, unit, description, meta, standard, objective, operation, invest, op_min, op_max,
                  inv_min, inv_max, hour_min, hour_max, total_min, total_max).infos(numpy, labels)


def spec_effect_infos(label: str, unit: str, description: str, meta: Optional[Dict], standard: bool, objective: bool,
                      operation: Optional[Dict[Effect, float]], invest: Optional[Dict[Effect, float]], op_min, op_max, inv_min,
                      inv_max, hour_min, hour_max, total_min, total_max, numpy: bool, labels: bool):
    return described('Effect:Element:Interface:object', [
        ('label', label, inspect.Parameter.empty), ('unit', unit, inspect.Parameter.empty),
        ('description', description, inspect.Parameter.empty), ('meta_data', meta if meta is not None else {}, None),
        ('is_standard', standard, False), ('is_objective', objective, False),
        ('specific_share_to_other_effects_operation', operation if operation is not None else {}, None),
        ('specific_share_to_other_effects_invest', invest if invest is not None else {}, None),
        ('minimum_operation', op_min, None), ('maximum_operation', op_max, None), ('minimum_invest', inv_min, None),
        ('maximum_invest', inv_max, None), ('minimum_operation_per_hour', hour_min, None),
        ('maximum_operation_per_hour', hour_max, None), ('minimum_total', total_min, None),
        ('maximum_total', total_max, None)], numpy, labels)


def impl_invest_infos(fixed: Optional[float], low: float, high: Optional[float], optional: bool, fix, specific, segments, divest,
                      numpy: bool, labels: bool):
    return InvestParameters(fixed, low, high, optional, fix, specific, segments, divest).infos(numpy, labels)


def spec_invest_infos(fixed: Optional[float], low: float, high: Optional[float], optional: bool, fix, specific, segments, divest,
                      numpy: bool, labels: bool):
    return described('InvestParameters:Interface:object', [
        ('fixed_size', fixed, None), ('minimum_size', low if fixed is None else fixed, 0),
        ('maximum_size', fixed if fixed is not None else high if high is not None else CONFIG.modeling.BIG, None),
        ('optional', optional, True), ('fix_effects', fix if fix else {}, None), ('specific_effects', specific if specific else {}, None),
        ('effects_in_segments', segments, None), ('divest_effects', divest if divest else {}, None)], numpy, labels)


def impl_onoff_infos(switch, hour, total_min, total_max, on_min, on_max, off_min, off_max, switches, force: bool,
                     numpy: bool, labels: bool):
    return OnOffParameters(switch, hour, total_min, total_max, on_min, on_max, off_min, off_max, switches, force).infos(numpy, labels)


def spec_onoff_infos(switch, hour, total_min, total_max, on_min, on_max, off_min, off_max, switches, force: bool,
                     numpy: bool, labels: bool):
    return described('OnOffParameters:Interface:object', [
        ('effects_per_switch_on', switch if switch is not None else {}, None),
        ('effects_per_running_hour', hour if hour is not None else {}, None), ('on_hours_total_min', total_min, None),
        ('on_hours_total_max', total_max, None), ('consecutive_on_hours_min', on_min, None),
        ('consecutive_on_hours_max', on_max, None), ('consecutive_off_hours_min', off_min, None),
        ('consecutive_off_hours_max', off_max, None), ('switch_on_total_max', switches, None),
        ('force_switch_on', force, False)], numpy, labels)


def impl_values(data, numpy: bool, labels: bool):
    return copy_and_convert_datatypes(data, numpy, labels)


def spec_values(data, numpy: bool, labels: bool):
    if isinstance(data, np.integer):
        return int(data)
    if isinstance(data, np.floating):
        return float(data)
    if data is None or isinstance(data, (int, float, str, bool)):
        return data
    if isinstance(data, datetime):
        return data.isoformat()
    if isinstance(data, (tuple, set)):
        return OPAQUE('copy_and_convert_datatypes', [x for x in data], numpy, labels)
    if isinstance(data, dict):
        return {OPAQUE('copy_and_convert_datatypes', k, numpy, True): OPAQUE('copy_and_convert_datatypes', v, numpy, labels)
                for k, v in data.items()}
    if isinstance(data, list):
        if numpy and all(isinstance(x, (int, float)) for x in data):
            return np.array([x for x in data])
        return [OPAQUE('copy_and_convert_datatypes', x, numpy, labels) for x in data]
    if isinstance(data, np.ndarray):
        if numpy and np.issubdtype(data.dtype, np.number):
            return data
        return OPAQUE('copy_and_convert_datatypes', data.tolist(), numpy, labels)
    if isinstance(data, TimeSeries):
        return OPAQUE('copy_and_convert_datatypes', data.active_data, numpy, labels)
    if isinstance(data, TimeSeriesData):
        return OPAQUE('copy_and_convert_datatypes', data.data, numpy, labels)
    if isinstance(data, Interface):
        if labels and isinstance(data, Element):
            return data.label
        return data.infos(numpy, labels)
    raise TypeError('unexpected data')


def impl_label(label: str):
    Element(label)


def spec_label(label: str):
    if label.startswith('_') or label.endswith('_') or '__' in label:
        logger.critical('reserved')


def impl_circular(e: Effect):
    e._plausibility_checks()


def spec_circular(e: Effect):
    for other in e.specific_share_to_other_effects_operation.keys():
        if e in other.specific_share_to_other_effects_operation:
            raise AssertionError('circular')
    for other in e.specific_share_to_other_effects_invest.keys():
        if e in other.specific_share_to_other_effects_invest:
            raise AssertionError('circular')


def impl_zero(label: str, penalty):
    Bus(label, penalty)


def spec_zero(label: str, penalty):
    if np.all(penalty == 0):
        logger.warning('penalty of zero')
    if not utils.label_is_valid(label):
        logger.critical('reserved')


def impl_sizeless(label: str, bus: Bus, size, profile, low, high):
    Flow(label, bus, size, profile, low, high)


def spec_sizeless(label: str, bus: Bus, size, profile, low, high):
    if not utils.label_is_valid(label):
        logger.critical('reserved')
    if np.any(bare(low) > bare(high)):
        raise Exception('bounds cross')
    if (size is None or size == CONFIG.modeling.BIG) and profile is not None:
        logger.warning('profile without a size')


def impl_bounds(value, low, high):
    check_bounds(value, 'p', 'e', low, high)


def spec_bounds(value, low, high):
    if not np.all(bare(value) > bare(low)):
        logger.warning('too low')
    if not np.all(bare(value) < bare(high)):
        logger.warning('too high')


def impl_r_boiler(label: str, a: Flow, b: Flow, c: Flow, x, y):
    Boiler(label, x, a, b)


def spec_r_boiler(label: str, a: Flow, b: Flow, c: Flow, x, y):
    if not np.all(bare(x) > 0) or not np.all(bare(x) < 1):
        logger.warning('range')


def impl_r_p2h(label: str, a: Flow, b: Flow, c: Flow, x, y):
    Power2Heat(label, x, a, b)


def spec_r_p2h(label: str, a: Flow, b: Flow, c: Flow, x, y):
    if not np.all(bare(x) > 0) or not np.all(bare(x) < 1):
        logger.warning('range')


def impl_r_hp(label: str, a: Flow, b: Flow, c: Flow, x, y):
    HeatPump(label, x, a, b)


def spec_r_hp(label: str, a: Flow, b: Flow, c: Flow, x, y):
    if not np.all(bare(x) > 1) or not np.all(bare(x) < 20):
        logger.warning('range')


def impl_r_tower(label: str, a: Flow, b: Flow, c: Flow, x, y):
    CoolingTower(label, x, a, b)


def spec_r_tower(label: str, a: Flow, b: Flow, c: Flow, x, y):
    if not np.all(bare(x) > 0) or not np.all(bare(x) < 1):
        logger.warning('range')


def impl_r_chp(label: str, a: Flow, b: Flow, c: Flow, x, y):
    CHP(label, x, y, a, b, c)


def spec_r_chp(label: str, a: Flow, b: Flow, c: Flow, x, y):
    if not np.all(bare(x) > 0) or not np.all(bare(x) < 1) or not np.all(bare(y) > 0) or \
            not np.all(bare(y) < 1) or not np.all(bare(y) + bare(x) > 0) or not np.all(bare(y) + bare(x) < 1):
        logger.warning('range')


def impl_r_hps(label: str, a: Flow, b: Flow, c: Flow, x, y):
    HeatPumpWithSource(label, x, a, b, c)


def spec_r_hps(label: str, a: Flow, b: Flow, c: Flow, x, y):
    if not np.all(bare(x) > 1) or not np.all(bare(x) < 20):
        logger.warning('range')
