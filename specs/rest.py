"""Parts with a small contract of their own: shares and penalties, parameters of an aggregation, listings of a system,
files of a system, start values of segments, the configuration as a dictionary"""
from typing import Any, Dict, List, Optional, Union
import json
import pathlib
import numpy as np
from flixOpt import plotting
from flixOpt.aggregation import Aggregation, AggregationParameters, TimeSeriesCollection
from flixOpt.calculation import FullCalculation, SegmentedCalculation
from flixOpt.config import CONFIG
from flixOpt.core import TimeSeries, TimeSeriesData
from flixOpt.effects import Effect, EffectCollection, EffectCollectionModel
from flixOpt.elements import Bus, Flow
from flixOpt.features import ShareAllocationModel, SingleShareModel
from flixOpt.flow_system import FlowSystem
from flixOpt.interface import InvestParameters
from flixOpt.math_modeling import Variable, VariableTS
from flixOpt.structure import Element, SystemModel, get_compact_representation
Scalar = float

OBLIGATIONS = [
    # ---- shares
    dict(property='C13', name='constant shares', impl='impl_constant', spec='spec_constant',
         anchor='SingleShareModel.__init__', effects=[], may_fail=False),
    dict(property='C13', also=['C02'], name='shares in a model of a single step', impl='impl_single_step',
         spec='spec_single_step', anchor='SingleShareModel.__init__', effects=[], may_fail=False,
         observe=['rows', 'vars', 'return', 'rejects']),
    dict(property='C13', also=['C14'], name='shares of the penalty', impl='impl_penalty', spec='spec_penalty', raw=True,
         anchor='EffectCollectionModel.add_share_to_penalty', effects=['ShareAllocationModel.*'], observe=['effects', 'rejects'],
         opaque=['ShareAllocationModel.add_share']),
    dict(property='C13', name='shares of the same name', impl='impl_twice', spec='spec_twice', raw=True,
         anchor='ShareAllocationModel.add_share', observe=['rejects']),
    dict(property='C13', name='limits per hour', impl='impl_per_hour', spec='spec_per_hour', raw=True,
         anchor='ShareAllocationModel.__init__', observe=['rejects']),
    dict(property='C30', also=['C33'], name='results of shares', impl='impl_shares', spec='spec_shares', raw=True,
         anchor='ShareAllocationModel.results', effects=[], may_fail=False),
    dict(property='C08', name='fixed sizes', impl='impl_fixed', spec='spec_fixed', raw=True,
         anchor='Flow.size_is_fixed', effects=[], may_fail=False),
    # ---- aggregation
    dict(property='C29', name='parameters of an aggregation', impl='impl_parameters', spec='spec_parameters', raw=True,
         anchor='AggregationParameters.__init__', effects=[], may_fail=False),
    dict(property='C29', name='settings of an aggregation', impl='impl_aggregation', spec='spec_aggregation', raw=True,
         anchor='Aggregation.__init__', effects=[]),
    # ---- systems
    dict(property='C26', also=['C29'], name='time series of a system', impl='impl_series', spec='spec_series', raw=True,
         anchor='FlowSystem.all_time_series', effects=[], may_fail=False, opaque=['FlowSystem.all_elements']),
    dict(property='C32', also=['C30'], name='file of a system', impl='impl_system_file', spec='spec_system_file', raw=True,
         anchor='FlowSystem.to_json', effects=['.*dump.*'], may_fail=False,
         opaque=['FlowSystem.infos', 'get_compact_representation']),
    dict(property='C32', also=['C30'], name='file of an element', impl='impl_element_file', spec='spec_element_file', raw=True,
         anchor='Interface.to_json', effects=['.*dump.*'], may_fail=False,
         opaque=['Interface.infos', 'get_compact_representation']),
    dict(property='C36', name='picture of the network', impl='impl_picture', spec='spec_picture', raw=True,
         anchor='FlowSystem.visualize_network', effects=['.*visualize_network'], observe=['return', 'effects'],
         opaque=['FlowSystem.network_infos', 'visualize_network']),
    # ---- calculations
    dict(property='C28', name='overview of start values', impl='impl_overview', spec='spec_overview', raw=True,
         anchor='SegmentedCalculation.start_values_of_segments', effects=[]),
    dict(property='C28', name='steps of a segment and its overlap', impl='impl_lengths', spec='spec_lengths', raw=True,
         anchor='SegmentedCalculation.segment_length_with_overlap', effects=[], may_fail=False),
]


def impl_constant(e: Element, name: str, x: Scalar, y: np.ndarray):
    ASSUME(name)
    a = SingleShareModel(e, name, None, x, False)
    b = SingleShareModel(e, name + '2', None, y, True)
    return a.single_share, b.single_share


def spec_constant(e: Element, name: str, x: Scalar, y: np.ndarray):
    ASSUME(name)
    a = VAR(e.label_full + '__' + name, 1)
    b = VAR(e.label_full + '__' + name + '2', 1)
    r = EQ()
    TERM(r, 1, a)
    RHS(r, x)
    r = EQ()
    TERM(r, 1, b)
    RHS(r, np.sum(y))
    return a, b


def impl_single_step(e: Element, name: str, v: Variable, factor: np.ndarray):
    ASSUME(name)
    ASSUME(v.length == 1)
    ASSUME(len(factor) == 1)
    return SingleShareModel(e, name, v, factor, True).single_share


def spec_single_step(e: Element, name: str, v: Variable, factor: np.ndarray):
    ASSUME(name)
    ASSUME(v.length == 1)
    ASSUME(len(factor) == 1)
    a = VAR(e.label_full + '__' + name, 1)
    r = EQ()
    TERM(r, -1, a)
    TERM(r, factor, v, as_sum=True)
    return a


def impl_penalty(m: EffectCollectionModel, name: str, v: Optional[VariableTS], factor):
    m.add_share_to_penalty(name, v, factor)


def spec_penalty(m: EffectCollectionModel, name: str, v: Optional[VariableTS], factor):
    if v is None:
        raise AssertionError('no variable')
    CALL('ShareAllocationModel.add_share', m.penalty, m._system_model, name, v, factor, True)


def impl_twice(e: Effect, s: SystemModel, a: str, b: str):
    ASSUME(a)
    ASSUME(b)
    m = ShareAllocationModel(e, 'x', False)
    m.do_modeling(s)
    m.add_share(s, a, None, 1)
    m.add_share(s, b, None, 1)


def spec_twice(e: Effect, s: SystemModel, a: str, b: str):
    ASSUME(a)
    ASSUME(b)
    if a == b:
        raise AssertionError('used')


def impl_per_hour(e: Element, label: str, series: bool, high: Optional[np.ndarray], low: Optional[np.ndarray]):
    ShareAllocationModel(e, label, series, None, None, high, low)


def spec_per_hour(e: Element, label: str, series: bool, high: Optional[np.ndarray], low: Optional[np.ndarray]):
    if not series and (high is not None or low is not None):
        raise AssertionError('there are no steps')


def impl_shares(m: ShareAllocationModel):
    return m.results()


def spec_shares(m: ShareAllocationModel):
    r = {}
    for v in m.variables.values():
        r[v.label_short] = v.result
    r['Shares'] = {v.label_short: v.result for v in m.shares.values()}
    return r


def impl_fixed(f: Flow):
    return bool(f.size_is_fixed)


def spec_fixed(f: Flow):
    return not isinstance(f.size, InvestParameters) or f.size.fixed_size is not None


def impl_parameters(hours: Scalar, n: int, storage: bool, fix: bool, freedom: Scalar, penalty: Scalar,
                    a: TimeSeriesData, b: TimeSeriesData, c: TimeSeriesData):
    p = AggregationParameters(hours, n, storage, fix, freedom, penalty, [a, b], [c])
    q = AggregationParameters(hours, n, storage, fix)
    r = AggregationParameters(hours, n, storage, fix, time_series_for_low_peaks=[c])
    return (p.hours_per_period, p.nr_of_periods, p.fix_storage_flows, p.aggregate_data_and_fix_non_binary_vars,
            p.percentage_of_period_freedom, p.penalty_of_period_freedom, p.labels_for_high_peaks, p.labels_for_low_peaks,
            bool(p.use_extreme_periods), bool(q.use_extreme_periods), bool(r.use_extreme_periods),
            q.percentage_of_period_freedom, q.penalty_of_period_freedom, q.labels_for_high_peaks, q.labels_for_low_peaks)


def spec_parameters(hours: Scalar, n: int, storage: bool, fix: bool, freedom: Scalar, penalty: Scalar,
                    a: TimeSeriesData, b: TimeSeriesData, c: TimeSeriesData):
    return (hours, n, storage, fix, freedom, penalty, [a.label, b.label], [c.label], True, False, True, 0, 0, [], [])


def impl_aggregation(data, step: Scalar, period: Scalar, n: int, w: Optional[Dict[str, float]], high: Optional[List[str]],
                     low: Optional[List[str]]):
    a = Aggregation(data, step, period, n, w, high, low)
    return (a.hours_per_time_step, a.hours_per_period, a.nr_of_periods, a.nr_of_time_steps, a.weights,
            a.time_series_for_high_peaks, a.time_series_for_low_peaks, bool(a.use_extreme_periods))


def spec_aggregation(data, step: Scalar, period: Scalar, n: int, w: Optional[Dict[str, float]], high: Optional[List[str]],
                     low: Optional[List[str]]):
    import copy
    return (step, period, n, len(copy.deepcopy(data).index), w or {}, high or [], low or [], bool(high) or bool(low))


def impl_series(s: FlowSystem):
    return s.all_time_series


def spec_series(s: FlowSystem):
    found = []
    for element in s.all_elements.values():
        for series in element.used_time_series:
            found.append(series)
    return found


def impl_system_file(s: FlowSystem, path: str):
    s.to_json(path)


def spec_system_file(s: FlowSystem, path: str):
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(get_compact_representation(s.infos(use_numpy=True, use_element_label=True)), f, indent=4, ensure_ascii=False)


def impl_element_file(b: Bus, path: str):
    b.to_json(path)


def spec_element_file(b: Bus, path: str):
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(get_compact_representation(b.infos(use_numpy=True, use_element_label=True)), f, indent=4, ensure_ascii=False)


def impl_picture(s: FlowSystem, path: Union[bool, str], controls: Union[bool, List[str]], show: bool):
    return s.visualize_network(path, controls, show)


def spec_picture(s: FlowSystem, path: Union[bool, str], controls: Union[bool, List[str]], show: bool):
    nodes, edges = s.network_infos()
    return plotting.visualize_network(nodes, edges, path, controls, show)


def impl_overview(c: SegmentedCalculation):
    return c.start_values_of_segments


def spec_overview(c: SegmentedCalculation):
    r = {c.sub_calculations[0].name: {e.label_full: v for e, v in c._original_start_values.items()}}
    r.update(c._transfered_start_values)
    return r


def impl_lengths(c: SegmentedCalculation):
    return c.segment_length_with_overlap


def spec_lengths(c: SegmentedCalculation):
    return c.segment_length + c.overlap_length
