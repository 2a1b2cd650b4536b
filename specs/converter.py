"""Converters: linear factors, the library of typical units, segments, transmissions"""
from typing import Dict, List, Optional, Tuple
from flixOpt.components import LinearConverter, LinearConverterModel, Transmission
from flixOpt.elements import Flow
from flixOpt.features import MultipleSegmentsModel, SegmentedSharesModel, SegmentModel
from flixOpt.interface import InvestParameters, OnOffParameters
from flixOpt.linear_converters import Boiler, CHP, CoolingTower, HeatPump, HeatPumpWithSource, Power2Heat
from flixOpt.core import TimeSeriesData
from flixOpt.math_modeling import Variable, VariableTS
from flixOpt.structure import Element, SystemModel
import numpy as np

SUPER = ['ComponentModel.do_modeling']
MODELS = ['=ComponentModel.do_modeling', 'MultipleSegmentsModel.do_modeling']

SHARES = ['EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest']
LIBRARY = dict(opaque=['check_bounds', 'LinearConverter._plausibility_checks'], effects=[], observe=['return'], may_fail=True)

OBLIGATIONS = [
    dict(property='C05', name='conversion of flows', impl='impl_conversion', spec='spec_conversion',
         anchor='LinearConverterModel.do_modeling', opaque=MODELS, effects=['.*do_modeling']),
    dict(property='C05', name='boiler', impl='impl_boiler', spec='spec_boiler', anchor='Boiler.__init__', **LIBRARY),
    dict(property='C05', name='power to heat', impl='impl_p2h', spec='spec_p2h', anchor='Power2Heat.__init__', **LIBRARY),
    dict(property='C05', name='heat pump', impl='impl_hp', spec='spec_hp', anchor='HeatPump.__init__', **LIBRARY),
    dict(property='C05', name='cooling tower', impl='impl_tower', spec='spec_tower', anchor='CoolingTower.__init__', **LIBRARY),
    dict(property='C05', name='cogeneration', impl='impl_chp', spec='spec_chp', anchor='CHP.__init__', **LIBRARY),
    dict(property='C05', name='heat pump with source', impl='impl_hps', spec='spec_hps', anchor='HeatPumpWithSource.__init__', **LIBRARY),
    dict(property='C06', name='segments of time series', impl='impl_segments', spec='spec_segments',
         anchor='MultipleSegmentsModel.do_modeling', effects=[], may_fail=False),
    dict(property='C06', name='segments of single values', impl='impl_segments1', spec='spec_segments1',
         anchor='MultipleSegmentsModel.do_modeling', effects=[], may_fail=False),
    dict(property='C06', name='many segments of many flows', impl='impl_many', spec='spec_many',
         anchor='MultipleSegmentsModel.do_modeling', effects=[], may_fail=False),
    dict(property='C06', name='effects in segments', impl='impl_shares', spec='spec_shares',
         anchor='SegmentedSharesModel.do_modeling', opaque=['=MultipleSegmentsModel.do_modeling'] + SHARES,
         effects=['.*do_modeling', '.*add_share_to_.*'], may_fail=True),
    dict(property='C07', name='flows through a transmission', also=['C42'], impl='impl_transmission', spec='spec_transmission',
         anchor='TransmissionModel.do_modeling', opaque=['=ComponentModel.do_modeling'], effects=['.*do_modeling']),
    dict(property='C07', name='a transmission is prepared before its flows are modelled', impl='impl_transmission_order',
         spec='spec_transmission_order', anchor='TransmissionModel.do_modeling', ordered='attributes', commute=[('setattr', 'setattr')],
         opaque=['=ComponentModel.do_modeling', 'TransmissionModel.create_transmission_equation', 'create_equation',
                 '_Constraint.add_summand'], effects=['ComponentModel.do_modeling', 'setattr.*'],
         about=['do_modeling', 'size', 'on_off_parameters'], observe=['effects']),
    dict(property='C07', name='directions of a transmission', impl='impl_directions', spec='spec_directions',
         anchor='Transmission.__init__', effects=[], observe=['return', 'rejects']),
]


def impl_conversion(converter: LinearConverter, system_model: SystemModel):
    converter.create_model().do_modeling(system_model)


def spec_conversion(converter: LinearConverter, system_model: SystemModel):
    m = converter.create_model()
    CALL('ComponentModel.do_modeling', m, system_model)
    if converter.conversion_factors:
        for factors in converter.conversion_factors:
            r = EQ()
            for flow in converter.inputs:
                if flow in factors:
                    TERM(r, factors[flow].active_data, flow.model.flow_rate)
            for flow in converter.outputs:
                if flow in factors:
                    TERM(r, -factors[flow].active_data, flow.model.flow_rate)
    else:
        points = {}
        for flow in converter.inputs + converter.outputs:
            points[flow.model.flow_rate] = [(start.active_data, end.active_data)
                                            for start, end in converter.segmented_conversion_factors[flow]]
        CALL('MultipleSegmentsModel.do_modeling',
             MultipleSegmentsModel(converter, points, None if m._on is None else m._on.on), system_model)


def library(c):
    return {'inputs': UNORDERED(c.inputs), 'outputs': UNORDERED(c.outputs), 'factors': UNORDERED(c.conversion_factors),
            'on_off': c.on_off_parameters, 'prevent': c.prevent_simultaneous_flows, 'segments': c.segmented_conversion_factors}


def impl_boiler(label: str, eta: float, fuel: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    return library(Boiler(label, eta, fuel, heat, onoff))


def spec_boiler(label: str, eta: float, fuel: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    # fuel * eta == heat
    return expected([fuel], [heat], [{fuel: eta, heat: 1}], onoff)


def expected(inputs, outputs, factors, onoff):
    return {'inputs': UNORDERED(inputs), 'outputs': UNORDERED(outputs), 'factors': UNORDERED(factors),
            'on_off': onoff, 'prevent': [], 'segments': {}}


def impl_p2h(label: str, eta: float, power: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    return library(Power2Heat(label, eta, power, heat, onoff))


def spec_p2h(label: str, eta: float, power: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    # power * eta == heat
    return expected([power], [heat], [{power: eta, heat: 1}], onoff)


def impl_hp(label: str, cop: float, power: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    return library(HeatPump(label, cop, power, heat, onoff))


def spec_hp(label: str, cop: float, power: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    # power * cop == heat
    return expected([power], [heat], [{power: cop, heat: 1}], onoff)


def impl_tower(label: str, demand: float, power: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    return library(CoolingTower(label, demand, power, heat, onoff))


def spec_tower(label: str, demand: float, power: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    # power - demand * heat == 0, both are inputs
    return expected([power, heat], [], [{power: 1, heat: scaled(demand)}], onoff)


def scaled(demand):
    if isinstance(demand, TimeSeriesData):
        return TimeSeriesData(-demand.data, agg_group=demand.agg_group, agg_weight=demand.agg_weight)
    return -demand


def impl_chp(label: str, eta_heat: float, eta_power: float, fuel: Flow, power: Flow, heat: Flow,
             onoff: Optional[OnOffParameters]):
    return library(CHP(label, eta_heat, eta_power, fuel, power, heat, onoff))


def spec_chp(label: str, eta_heat: float, eta_power: float, fuel: Flow, power: Flow, heat: Flow,
             onoff: Optional[OnOffParameters]):
    # fuel * eta_heat == heat and fuel * eta_power == power
    return expected([fuel], [heat, power], [{fuel: eta_heat, heat: 1}, {fuel: eta_power, power: 1}], onoff)


def impl_hps(label: str, cop: float, power: Flow, source: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    return library(HeatPumpWithSource(label, cop, power, source, heat, onoff))


def spec_hps(label: str, cop: float, power: Flow, source: Flow, heat: Flow, onoff: Optional[OnOffParameters]):
    # power * cop == heat and source * cop / (cop - 1) == heat
    return expected([power, source], [heat], [{power: cop, heat: 1}, {source: share(cop), heat: 1}], onoff)


def share(cop):
    if isinstance(cop, TimeSeriesData):
        return TimeSeriesData(cop.data / (cop.data - 1), agg_group=cop.agg_group, agg_weight=cop.agg_weight)
    return cop / (cop - 1)


def impl_segments(element: Element, x: VariableTS, y: VariableTS, x0, x1, x2, x3, y0, y1, y2, y3, outside,
                  system_model: SystemModel):
    ASSUME(x is not y)
    MultipleSegmentsModel(element, {x: [(x0, x1), (x2, x3)], y: [(y0, y1), (y2, y3)]}, outside).do_modeling(system_model)


def spec_segments(element: Element, x: VariableTS, y: VariableTS, x0, x1, x2, x3, y0, y1, y2, y3, outside,
                  system_model: SystemModel):
    ASSUME(x is not y)
    segments(element, system_model.nr_of_time_steps, {x: [(x0, x1), (x2, x3)], y: [(y0, y1), (y2, y3)]}, 2, outside)


def impl_segments1(element: Element, x: Variable, y: Variable, x0, x1, x2, x3, x4, x5, y0, y1, y2, y3, y4, y5, outside,
                   system_model: SystemModel):
    ASSUME(x is not y)
    MultipleSegmentsModel(element, {x: [(x0, x1), (x2, x3), (x4, x5)], y: [(y0, y1), (y2, y3), (y4, y5)]}, outside,
                          as_time_series=False).do_modeling(system_model)


def spec_segments1(element: Element, x: Variable, y: Variable, x0, x1, x2, x3, x4, x5, y0, y1, y2, y3, y4, y5, outside,
                   system_model: SystemModel):
    ASSUME(x is not y)
    segments(element, 1, {x: [(x0, x1), (x2, x3), (x4, x5)], y: [(y0, y1), (y2, y3), (y4, y5)]}, 3, outside)


def points(a, b, c):
    return [(a, b), (b, c), (c, a), (a, a), (b, b), (c, c), (a, c)]


def impl_many(element: Element, u: VariableTS, v: VariableTS, w: VariableTS, x: VariableTS, y: VariableTS, z: VariableTS, a, b, c, d,
              outside, system_model: SystemModel):
    ASSUME(u is not v and u is not w and u is not x and u is not y and u is not z)
    ASSUME(v is not w and v is not x and v is not y and v is not z)
    ASSUME(w is not x and w is not y and w is not z)
    ASSUME(x is not y and x is not z)
    ASSUME(y is not z)
    MultipleSegmentsModel(element, {u: points(a, b, c), v: points(b, c, d), w: points(c, d, a), x: points(d, a, b),
                                    y: points(a, c, d), z: points(a, b, d)}, outside).do_modeling(system_model)


def spec_many(element: Element, u: VariableTS, v: VariableTS, w: VariableTS, x: VariableTS, y: VariableTS, z: VariableTS, a, b, c, d,
              outside, system_model: SystemModel):
    ASSUME(u is not v and u is not w and u is not x and u is not y and u is not z)
    ASSUME(v is not w and v is not x and v is not y and v is not z)
    ASSUME(w is not x and w is not y and w is not z)
    ASSUME(x is not y and x is not z)
    ASSUME(y is not z)
    segments(element, system_model.nr_of_time_steps,
             {u: points(a, b, c), v: points(b, c, d), w: points(c, d, a), x: points(d, a, b), y: points(a, c, d),
              z: points(a, b, d)}, 7, outside)


def segments(element, n, points, count, outside):
    label = element.label_full
    inside, start, end = {}, {}, {}
    for i in range(count):
        inside[i] = VAR(label + '__Segment_' + str(i) + '_inSegment', n, binary=True)
        start[i] = VAR(label + '__Segment_' + str(i) + '_lambda0', n, lower=0, upper=1)
        end[i] = VAR(label + '__Segment_' + str(i) + '_lambda1', n, lower=0, upper=1)
        r = EQ()
        TERM(r, -1, inside[i])
        TERM(r, 1, start[i])
        TERM(r, 1, end[i])
    for v, pairs in points.items():
        r = EQ()
        TERM(r, -1, v)
        for i in range(count):
            TERM(r, pairs[i][0], start[i])
            TERM(r, pairs[i][1], end[i])
    r = EQ()
    for i in range(count):
        TERM(r, 1, inside[i])
    if isinstance(outside, Variable):
        TERM(r, -1, outside)
    elif outside is True:
        free = VAR(label + '__MultipleSegments_outside_segments', n, binary=True)
        TERM(r, -1, free)
    else:
        RHS(r, 1)


def impl_shares(element: Element, size: Variable, points: List[Tuple[float, float]],
                shares: Dict[Element, List[Tuple[float, float]]], outside, system_model: SystemModel):
    ASSUME(not isinstance(size, VariableTS))
    SegmentedSharesModel(element, (size, points), shares, outside).do_modeling(system_model)


def spec_shares(element: Element, size: Variable, points: List[Tuple[float, float]],
                shares: Dict[Element, List[Tuple[float, float]]], outside, system_model: SystemModel):
    ASSUME(not isinstance(size, VariableTS))
    coupled = {}
    share = {}
    for effect, values in shares.items():
        share[effect] = VAR(element.label_full + '__SegmentedShares_' + effect.label + '_segmented', 1)
        coupled[share[effect]] = values
    coupled[size] = points
    CALL('MultipleSegmentsModel.do_modeling', MultipleSegmentsModel(element, coupled, outside, as_time_series=False),
         system_model)
    for effect in shares:
        CALL('EffectCollectionModel.add_share_to_invest', system_model.effect_collection_model,
             'segmented_effects', element, {effect: 1}, 1, share[effect])


def impl_transmission(t: Transmission, system_model: SystemModel):
    t.create_model().do_modeling(system_model)
    return {'size of second direction': t.in2.size if t.in2 is not None else None,
            'states': [flow.on_off_parameters for flow in t.inputs + t.outputs]}


def spec_transmission(t: Transmission, system_model: SystemModel):
    m = t.create_model()
    fixed = t.absolute_losses
    if fixed is not None and np.any(fixed.active_data != 0):
        for flow in t.inputs + t.outputs:
            if flow.on_off_parameters is None:
                flow.on_off_parameters = OnOffParameters()
    two = t.in2 is not None
    if two and isinstance(t.in1.size, InvestParameters) and not isinstance(t.in2.size, InvestParameters):
        t.in2.size = InvestParameters(maximum_size=t.in1.size.maximum_size)
    CALL('ComponentModel.do_modeling', m, system_model)
    direction(t, t.in1, t.out1)
    if two:
        direction(t, t.in2, t.out2)
        if isinstance(t.in1.size, InvestParameters):
            r = EQ()
            TERM(r, 1, t.in1.model._investment.size)
            TERM(r, -1, t.in2.model._investment.size)
    return {'size of second direction': t.in2.size if two else None,
            'states': [flow.on_off_parameters for flow in t.inputs + t.outputs]}


def impl_transmission_order(t: Transmission, system_model: SystemModel):
    t.create_model().do_modeling(system_model)


def spec_transmission_order(t: Transmission, system_model: SystemModel):
    m = t.create_model()
    if t.absolute_losses is not None and np.any(t.absolute_losses.active_data != 0):
        for flow in t.inputs + t.outputs:
            if flow.on_off_parameters is None:
                flow.on_off_parameters = OnOffParameters()
    if t.in2 is not None and isinstance(t.in1.size, InvestParameters) and not isinstance(t.in2.size, InvestParameters):
        t.in2.size = InvestParameters(maximum_size=t.in1.size.maximum_size)
    CALL('ComponentModel.do_modeling', m, system_model)


def direction(t, source, target):
    r = EQ()
    if t.relative_losses is None:
        TERM(r, 1, source.model.flow_rate)
    else:
        TERM(r, 1 - t.relative_losses.active_data, source.model.flow_rate)
    TERM(r, -1, target.model.flow_rate)
    if t.absolute_losses is not None and np.any(t.absolute_losses.active_data != 0):
        TERM(r, -t.absolute_losses.active_data, source.model._on.on)


def impl_directions(label: str, in1: Flow, out1: Flow, in2: Optional[Flow], out2: Optional[Flow], relative, absolute,
                    onoff: Optional[OnOffParameters], exclusive: bool):
    t = Transmission(label, in1, out1, in2, out2, relative, absolute, onoff, exclusive)
    return {'exclusive': t.prevent_simultaneous_flows, 'in1': t.in1, 'in2': t.in2, 'out1': t.out1, 'out2': t.out2,
            'on_off': t.on_off_parameters, 'relative': t.relative_losses, 'absolute': t.absolute_losses}


def spec_directions(label: str, in1: Flow, out1: Flow, in2: Optional[Flow], out2: Optional[Flow], relative, absolute,
                    onoff: Optional[OnOffParameters], exclusive: bool):
    flows = [f for f in [in1, in2, out1, out2] if f is not None]
    if in2 is not None and in2.bus != out1.bus:
        raise AssertionError('directions start and end elsewhere')
    if out2 is not None and out2.bus != in1.bus:
        raise AssertionError('directions start and end elsewhere')
    for f in [out1, in2, out2]:
        if f is not None and isinstance(f.size, InvestParameters):
            raise ValueError('only the first inflow may be sized')
    if len({f.label: f for f in flows}) != len(flows):
        raise Exception('labels are not unique')
    return {'exclusive': [] if in2 is None or exclusive is False else [in1, in2], 'in1': in1, 'in2': in2, 'out1': out1,
            'out2': out2, 'on_off': onoff, 'relative': relative, 'absolute': absolute}
