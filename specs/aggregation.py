"""Aggregation: which steps are tied together, how, and the aggregated data"""
from typing import Any, Dict, List, Optional, Tuple
import numpy as np
import pandas as pd
import tsam.timeseriesaggregation as tsam
from flixOpt.aggregation import Aggregation, AggregationModel, AggregationParameters, TimeSeriesCollection
from flixOpt.calculation import AggregatedCalculation
from flixOpt.components import Storage
from flixOpt.core import TimeSeries, TimeSeriesData
from flixOpt.elements import Component
from flixOpt.flow_system import FlowSystem
from flixOpt.math_modeling import Variable, VariableTS
from flixOpt.structure import Element, SystemModel

OBLIGATIONS = [
    dict(property='C29', name='steps of the periods of every cluster', impl='impl_clusters', spec='spec_clusters', raw=True,
         anchor='Aggregation.get_cluster_indices', effects=[], may_fail=False),
    dict(property='C29', name='pairs of steps', impl='impl_pairs', spec='spec_pairs', raw=True,
         anchor='Aggregation.get_equation_indices', effects=[], may_fail=False),
    dict(property='C29', name='pairs of steps with the first ones', impl='impl_all_pairs', spec='spec_all_pairs', raw=True,
         anchor='Aggregation.get_equation_indices', effects=[], may_fail=False),
    dict(property='C29', name='equated steps of a variable', impl='impl_equate', spec='spec_equate',
         anchor='AggregationModel.equate_indices', effects=[], observe=['rows', 'vars', 'effects']),
    dict(property='C29', name='equated variables', impl='impl_selection', spec='spec_selection', raw=True,
         anchor='AggregationModel.do_modeling', opaque=['AggregationModel.equate_indices', 'Aggregation.get_equation_indices',
                                                       'ElementModel.all_variables',
                                                       'EffectCollectionModel.add_share_to_penalty'],
         effects=['AggregationModel.*', 'EffectCollectionModel.*'], may_fail=False),
    dict(property='C29', name='series with peaks', impl='impl_peaks', spec='spec_peaks', raw=True, effects=[], may_fail=False,
         anchor='AggregationParameters.labels_for_high_peaks'),
    dict(property='C29', name='clustering', impl='impl_cluster', spec='spec_cluster', raw=True, anchor='Aggregation.cluster',
         effects=[], opaque=['Aggregation.describe_clusters']),
    dict(property='C29', also=['C42'], name='data and weights', impl='impl_collection', spec='spec_collection', raw=True,
         anchor='TimeSeriesCollection.__init__', effects=[], observe=['return', 'rejects']),
    dict(property='C29', name='weights of groups', impl='impl_groups', spec='spec_groups', raw=True,
         anchor='TimeSeriesCollection._calculate_aggregation_weigths', effects=[], may_fail=False),
    dict(property='C29', name='series of the same label', impl='impl_same', spec='spec_same', raw=True,
         anchor='TimeSeriesCollection._unique_labels', effects=[], observe=['rejects']),
    dict(property='C29', name='aggregated data', impl='impl_insert', spec='spec_insert', raw=True,
         anchor='TimeSeriesCollection.insert_data', effects=['setattr.aggregated_data'], observe=['effects'],
         opaque=['TimeSeriesCollection._unique_labels', 'TimeSeriesCollection._calculate_aggregation_weigths']),
]


class Clusters:
    clusterOrder = [1, 0, 1, 2, 0, 1, 3, 4, 5, 6, 1, 1, 1, 5, 6, 6, 1]
    clusterPeriodNoOccur = {0: 2, 1: 7, 2: 1, 3: 1, 4: 1, 5: 2, 6: 3}
    stepIdx = [0, 1, 2]
    timeSeries = [0] * 50


MEMBERS = {0: [[3, 4, 5], [12, 13, 14]],
           1: [[0, 1, 2], [6, 7, 8], [15, 16, 17], [30, 31, 32], [33, 34, 35], [36, 37, 38], [48, 49]],
           2: [[9, 10, 11]], 3: [[18, 19, 20]], 4: [[21, 22, 23]], 5: [[24, 25, 26], [39, 40, 41]],
           6: [[27, 28, 29], [42, 43, 44], [45, 46, 47]]}


def impl_clusters(a: Aggregation):
    a.tsam = Clusters()
    return {k: [list(x) for x in v] for k, v in a.get_cluster_indices().items()}


def spec_clusters(a: Aggregation):
    return MEMBERS


def impl_pairs(a: Aggregation):
    a.tsam = Clusters()
    first, second = a.get_equation_indices(True)
    return BAG(zip(first, second)), len(first) == len(second)


def spec_pairs(a: Aggregation):
    return BAG([(p[0][i], q[i]) for p in MEMBERS.values() for q in p[1:] for i in range(1, len(q))]), True


def impl_all_pairs(a: Aggregation):
    a.tsam = Clusters()
    first, second = a.get_equation_indices(False)
    return BAG(zip(first, second)), len(first) == len(second)


def spec_all_pairs(a: Aggregation):
    return BAG([(p[0][i], q[i]) for p in MEMBERS.values() for q in p[1:] for i in range(len(q))]), True


def impl_equate(s: FlowSystem, p: AggregationParameters, a: Aggregation, v: Variable, here: np.ndarray, there: np.ndarray,
                system_model: SystemModel):
    AggregationModel(p, s, a, None).equate_indices(v, (here, there), system_model)


def spec_equate(s: FlowSystem, p: AggregationParameters, a: Aggregation, v: Variable, here: np.ndarray, there: np.ndarray,
                system_model: SystemModel):
    if len(here) != len(there):
        raise AssertionError('lengths')
    n = len(here)
    name = Element('Aggregation').label_full + '__Model_'
    r = EQ()
    TERM(r, 1, v, here)
    TERM(r, -1, v, there)
    if v.is_binary and p.percentage_of_period_freedom > 0:
        up = VAR(name + 'Korr1_' + v.label, n, binary=True)
        down = VAR(name + 'Korr0_' + v.label, n, binary=True)
        TERM(r, 1, up)
        TERM(r, -1, down)
        q = LE()
        TERM(q, 1, up)
        TERM(q, 1, down)
        RHS(q, 1.1)
        q = LE()
        TERM(q, 1, up, as_sum=True)
        TERM(q, 1, down, as_sum=True)
        RHS(q, round(p.percentage_of_period_freedom / 100 * n))


def impl_selection(s: FlowSystem, p: AggregationParameters, a: Aggregation, chosen: Optional[List[Component]], m: SystemModel,
                   corrections: Dict[str, Variable]):
    model = AggregationModel(p, s, a, chosen)
    model.variables = corrections
    model.do_modeling(m)


def spec_selection(s: FlowSystem, p: AggregationParameters, a: Aggregation, chosen: Optional[List[Component]], m: SystemModel,
                   corrections: Dict[str, Variable]):
    model = AggregationModel(p, s, a, chosen)
    model.variables = corrections
    pairs = a.get_equation_indices(True)
    if len(pairs[0]) > 0:
        for c in chosen if chosen else s.components.values():
            if not isinstance(c, Storage) or p.fix_storage_flows:
                for v in c.model.all_variables.values():
                    if isinstance(v, VariableTS) and (p.aggregate_data_and_fix_non_binary_vars or v.is_binary):
                        model.equate_indices(v, pairs, m)
        if p.percentage_of_period_freedom > 0 and p.penalty_of_period_freedom != 0:
            for label, v in model.variables.items():
                m.effect_collection_model.add_share_to_penalty('Aggregation_penalty__' + label, v,
                                                               p.penalty_of_period_freedom)


def impl_cluster(data, step: float, hours: float, n: int, weights: dict, high: List[str], low: List[str]):
    a = Aggregation(data, step, hours, n, weights, high, low)
    a.cluster()
    return a.aggregated_data


def spec_cluster(data, step: float, hours: float, n: int, weights: dict, high: List[str], low: List[str]):
    import copy
    t = tsam.TimeSeriesAggregation(copy.deepcopy(data), noTypicalPeriods=n, hoursPerPeriod=hours, resolution=step,
                                   clusterMethod='k_means',
                                   extremePeriodMethod='new_cluster_center' if high or low else 'None',
                                   weightDict=weights or {}, addPeakMax=high or [], addPeakMin=low or [])
    t.createTypicalPeriods()
    return t.predictOriginalData()


def impl_collection(a: TimeSeries, b: TimeSeries):
    c = TimeSeriesCollection([a, b])
    return {'data': c.data, 'labels': BAG(list(c.weights)), 'a': c.weights[a.label], 'b': c.weights[b.label]}


def weight(x: TimeSeries):
    return 1 if x.aggregation_weight is None else x.aggregation_weight


def spec_collection(a: TimeSeries, b: TimeSeries):
    if a.label == b.label:
        raise AssertionError('labels')
    together = a.aggregation_group is not None and a.aggregation_group == b.aggregation_group
    wa = (1 / 2 if together else 1) if a.aggregation_group is not None else weight(a)
    wb = (1 / 2 if together else 1) if b.aggregation_group is not None else weight(b)
    return {'data': {a.label: a.active_data, b.label: b.active_data}, 'labels': BAG([a.label, b.label]), 'a': wa, 'b': wb}


def impl_insert(series: List[TimeSeries], data: dict):
    TimeSeriesCollection(series).insert_data(data)


def spec_insert(series: List[TimeSeries], data: dict):
    for t in series:
        if t.label in data:
            t.aggregated_data = data[t.label]


def impl_peaks(high: Optional[List[TimeSeriesData]], low: Optional[List[TimeSeriesData]]):
    p = AggregationParameters(24, 4, False, True, time_series_for_high_peaks=high, time_series_for_low_peaks=low)
    return p.labels_for_high_peaks, p.labels_for_low_peaks, bool(p.use_extreme_periods)


def spec_peaks(high: Optional[List[TimeSeriesData]], low: Optional[List[TimeSeriesData]]):
    return [t.label for t in high or []], [t.label for t in low or []], bool(high) or bool(low)


def impl_groups(a: TimeSeries, b: TimeSeries, c: TimeSeries, d: TimeSeries, e: TimeSeries, f: TimeSeries, g: TimeSeries):
    series = [a, b, c, d, e, f, g]
    for t, label, group in zip(series, 'abcdefg', ['x', None, 'x', 'y', 'x', 'x', 'x']):
        t.label = label
        t.aggregation_group = group
    r = TimeSeriesCollection(series)
    return r.data, r.weights, [t.aggregation_weight for t in series]


def spec_groups(a: TimeSeries, b: TimeSeries, c: TimeSeries, d: TimeSeries, e: TimeSeries, f: TimeSeries, g: TimeSeries):
    single = 1 if b.aggregation_weight is None else b.aggregation_weight
    weights = {'a': 1 / 5, 'b': single, 'c': 1 / 5, 'd': 1, 'e': 1 / 5, 'f': 1 / 5, 'g': 1 / 5}
    return ({'a': a.active_data, 'b': b.active_data, 'c': c.active_data, 'd': d.active_data, 'e': e.active_data,
             'f': f.active_data, 'g': g.active_data}, weights, list(weights.values()))


def impl_same(a: TimeSeries, b: TimeSeries, c: TimeSeries, d: TimeSeries, e: TimeSeries, f: TimeSeries, g: TimeSeries, same: bool):
    for t, label in zip([a, b, c, d, e, f, g], 'abcdefg'):
        t.label = label
        t.aggregation_group = None
    if same:
        g.label = 'f'
    TimeSeriesCollection([a, b, c, d, e, f, g])


def spec_same(a: TimeSeries, b: TimeSeries, c: TimeSeries, d: TimeSeries, e: TimeSeries, f: TimeSeries, g: TimeSeries, same: bool):
    if same:
        raise AssertionError('labels')
