"""Calculations: the order of their steps, segments, aggregation, what they save and what is loaded"""
from typing import Any, Dict, List, Optional, Union
import json
import logging
import pathlib
import numpy as np
import yaml
from flixOpt.aggregation import Aggregation, AggregationModel, AggregationParameters, TimeSeriesCollection
from flixOpt.calculation import (AggregatedCalculation, Calculation, FullCalculation, SegmentedCalculation,
                                 _combine_nested_arrays, _combine_nested_scalars)
from flixOpt.components import Storage
from flixOpt.elements import Component, Flow
from flixOpt.flow_system import FlowSystem
from flixOpt.results import CalculationResults
from flixOpt.solvers import Solver
from flixOpt.structure import SystemModel, copy_and_convert_datatypes, get_compact_representation

logger = logging.getLogger('flixOpt')
STEPS = ['FlowSystem.transform_data', 'FlowSystem.all_time_series', 'TimeSeries.activate_indices', 'SystemModel',
         'SystemModel.do_modeling', 'MathModel.translate_to_modeling_language']

SEGMENT = ['SegmentedCalculation._transfer_start_values', 'SegmentedCalculation._get_indices',
           'SegmentedCalculation._reset_start_values', 'FullCalculation.do_modeling', 'FullCalculation.solve',
           'SystemModel.sub_models', 'SegmentedCalculation._save_solve_infos', '=Calculation._define_path_names']

OBLIGATIONS = [
    # ---- order of the steps
    dict(property='C27', name='steps of modelling', impl='impl_modeling', spec='spec_modeling', raw=True, ordered=True,
         anchor='FullCalculation.do_modeling', opaque=STEPS, effects=['.*'], may_fail=False),
    dict(property='C27', also=['C31'], name='steps of solving', impl='impl_solve', spec='spec_solve', raw=True, ordered=True,
         anchor='FullCalculation.solve', opaque=['=Calculation._define_path_names', 'SystemModel.solve',
                                                '=Calculation._save_solve_infos'],
         effects=['Calculation.*', 'MathModel.*', 'SystemModel.*', 'setattr.*'],
         may_fail=False),
    dict(property='C27', also=['C29'], name='steps of an aggregated modelling', impl='impl_aggregated', spec='spec_aggregated',
         raw=True, ordered=True, anchor='AggregatedCalculation.do_modeling', effects=['.*'], observe=['effects', 'return', 'rejects'],
         opaque=STEPS + ['FlowSystem.get_time_data_from_indices', 'Aggregation', 'Aggregation.cluster', 'Aggregation.plot',
                         'AggregationModel', 'AggregationModel.do_modeling', 'TimeSeriesCollection',
                         'TimeSeriesCollection.insert_data'],
         ignore=['Aggregation.plot', 'setitem', 'round', 'np.min', 'np.max'],
         pure=['FlowSystem.get_time_data_from_indices'], commute=[('append', 'AggregationModel.do_modeling')]),
    dict(property='C27', also=['C31'], name='steps of solving an aggregated model', impl='impl_solve_aggregated',
         spec='spec_solve_aggregated', raw=True, ordered=True, anchor='AggregatedCalculation.solve',
         opaque=['=Calculation._define_path_names', 'SystemModel.solve', '=Calculation._save_solve_infos'],
         effects=['Calculation.*', 'MathModel.*', 'SystemModel.*', 'setattr.*'], may_fail=False),
    dict(property='C31', name='results of the latest solve', impl='impl_results', spec='spec_results', raw=True,
         anchor='Calculation.results', opaque=['SystemModel.solve', 'SystemModel.results'],
         effects=[], may_fail=False),
    dict(property='C31', name='results of the latest segments', impl='impl_segments_again', spec='spec_segments_again',
         raw=True, anchor='SegmentedCalculation.results', opaque=SEGMENT + ['=Calculation.results'],
         pure=['SegmentedCalculation._get_indices', '=Calculation.results'], effects=[], may_fail=False),
    # ---- segments
    dict(property='C28', name='steps of a segment', impl='impl_window', spec='spec_window', raw=True,
         anchor='SegmentedCalculation._get_indices', may_fail=False, effects=[]),
    dict(property='C28', name='number of segments', impl='impl_number', spec='spec_number', raw=True,
         anchor='SegmentedCalculation.__init__', effects=[], observe=['return', 'rejects']),
    dict(property='C28', name='start values of a segment', impl='impl_transfer', spec='spec_transfer', raw=True,
         anchor='SegmentedCalculation._transfer_start_values', effects=['setattr.*'], observe=['effects', 'return'],
         opaque=['FlowSystem.flows']),
    dict(property='C28', name='start values of all segments', impl='impl_started', spec='spec_started', raw=True,
         anchor='SegmentedCalculation.start_values_of_segments', effects=[], observe=['return'],
         opaque=['FlowSystem.flows']),
    dict(property='C28', name='original start values', impl='impl_reset', spec='spec_reset', raw=True,
         anchor='SegmentedCalculation._reset_start_values', effects=['setattr.*'], observe=['effects', 'return'],
         opaque=['FlowSystem.flows']),
    dict(property='C28', name='combined series', impl='impl_arrays', spec='spec_arrays', raw=True,
         anchor='_combine_nested_arrays', recurse=5, effects=[], may_fail=False),
    dict(property='C28', name='combined series of a last segment with one step', impl='impl_last_step', spec='spec_last_step',
         raw=True, anchor='_combine_nested_arrays', recurse=5, effects=[], may_fail=False),
    dict(property='C28', name='combined series with a common overlap', impl='impl_trim', spec='spec_trim', raw=True,
         anchor='_combine_nested_arrays', recurse=5, effects=[], may_fail=False),
    dict(property='C28', name='run of seven segments', impl='impl_run', spec='spec_run', raw=True, ordered=True,
         anchor='SegmentedCalculation.do_modeling_and_solve', opaque=SEGMENT, pure=['SegmentedCalculation._get_indices'],
         effects=['.*Calculation.*'], observe=['effects', 'return']),
    dict(property='C28', name='start values after a failed segment', impl='impl_fail', spec='spec_fail', raw=True,
         anchor='SegmentedCalculation.do_modeling_and_solve', opaque=SEGMENT, fail_at=['FullCalculation.do_modeling', 'FullCalculation.solve'],
         effects=['SegmentedCalculation._reset_start_values', 'SegmentedCalculation._transfer_start_values'],
         observe=['effects']),
    dict(property='C28', name='combined scalars', impl='impl_scalars', spec='spec_scalars', raw=True,
         anchor='_combine_nested_scalars', recurse=5, effects=[], may_fail=False),
]


def impl_modeling(name: str, s: FlowSystem, steps: Optional[List[int]]):
    c = FullCalculation(name, s, 'pyomo', steps)
    return c.do_modeling() is c.system_model


def spec_modeling(name: str, s: FlowSystem, steps: Optional[List[int]]):
    s.transform_data()
    for t in s.all_time_series:
        t.activate_indices(steps)
    m = SystemModel(name, 'pyomo', s, steps)
    m.do_modeling()
    m.translate_to_modeling_language()
    return True


def impl_solve(c: FullCalculation, solver: Solver, save: Union[bool, str]):
    c.solve(solver, save)


def spec_solve(c: FullCalculation, solver: Solver, save: Union[bool, str]):
    c._define_path_names(save)
    solver.logfile_name = c._paths['log']
    c.system_model.solve(solver)
    c._results = None
    if save:
        c._save_solve_infos()


def impl_results(name: str, s: FlowSystem, m: SystemModel, solver: Solver, old):
    c = FullCalculation(name, s)
    c.system_model = m
    c._results = old
    c.solve(solver)
    first = c.results()
    return {'first': first, 'again': c.results()}


def spec_results(name: str, s: FlowSystem, m: SystemModel, solver: Solver, old):
    r = m.results()
    return {'first': r, 'again': r}


def impl_segments_again(name: str, s: FlowSystem, other: FlowSystem, length: int, overlap: int, solver: Solver):
    c = SegmentedCalculation(name, s, length, overlap)
    c.number_of_segments = 1
    c.do_modeling_and_solve(solver, False)
    first = c.results(individual_results=True)
    c.flow_system = other
    c.do_modeling_and_solve(solver, False)
    return {'first': first, 'second': c.results(individual_results=True)}


def spec_segments_again(name: str, s: FlowSystem, other: FlowSystem, length: int, overlap: int, solver: Solver):
    c = SegmentedCalculation(name, s, length, overlap)
    first = FullCalculation('Segment_1', s, 'pyomo', c._get_indices(0))
    second = FullCalculation('Segment_1', other, 'pyomo', c._get_indices(0))
    return {'first': {'Segment_1': first.results()}, 'second': {'Segment_1': second.results()}}


def impl_window(c: SegmentedCalculation, i: int):
    return c._get_indices(i)


def spec_window(c: SegmentedCalculation, i: int):
    steps = range(c._total_length) if c.time_indices is None else c.time_indices
    first = i * c.segment_length
    behind = min(first + c.segment_length + c.overlap_length, c._total_length)
    return steps[first:behind]


def impl_number(name: str, s: FlowSystem, length: int, overlap: int, steps: Optional[List[int]]):
    c = SegmentedCalculation(name, s, length, overlap, 'pyomo', steps)
    return c.number_of_segments, c._total_length, c.segment_length_with_overlap


def spec_number(name: str, s: FlowSystem, length: int, overlap: int, steps: Optional[List[int]]):
    import math
    n = len(s.time_series) if steps is None else len(steps)
    if length <= 2 or length + overlap > n:
        raise AssertionError('lengths')
    return math.ceil(n / length), n, length + overlap


def impl_transfer(c: SegmentedCalculation, name: str):
    c._transfer_start_values(name)


def spec_transfer(c: SegmentedCalculation, name: str):
    values = {}
    for f in c.flow_system.flows.values():
        f.previous_flow_rate = f.model.flow_rate.result[c.segment_length - 1]
        values[f.label_full] = f.previous_flow_rate
    for x in c.flow_system.components.values():
        if isinstance(x, Storage):
            x.initial_charge_state = x.model.charge_state.result[c.segment_length]
            values[x.label_full] = x.initial_charge_state


def impl_started(name: str, s: FlowSystem, length: int, overlap: int, first: FullCalculation):
    c = SegmentedCalculation(name, s, length, overlap)
    c.sub_calculations = [first]
    c._transfer_start_values('Segment_2')
    return c.start_values_of_segments


def spec_started(name: str, s: FlowSystem, length: int, overlap: int, first: FullCalculation):
    if length <= 2 or length + overlap > len(s.time_series):
        raise AssertionError('lengths')
    before, after = {}, {}
    for f in s.flows.values():
        before[f.label_full] = f.previous_flow_rate
        after[f.label_full] = f.model.flow_rate.result[length - 1]
    for x in s.components.values():
        if isinstance(x, Storage):
            before[x.label_full] = x.initial_charge_state
            after[x.label_full] = x.model.charge_state.result[length]
    return {first.name: before, 'Segment_2': after}


def impl_reset(name: str, s: FlowSystem, length: int, overlap: int):
    c = SegmentedCalculation(name, s, length, overlap)
    c._reset_start_values()


def spec_reset(name: str, s: FlowSystem, length: int, overlap: int):
    if length <= 2 or length + overlap > len(s.time_series):
        raise AssertionError('lengths')
    for f in s.flows.values():
        f.previous_flow_rate = f.previous_flow_rate
    for x in s.components.values():
        if isinstance(x, Storage):
            x.initial_charge_state = x.initial_charge_state


def nested(a, x):
    return {'e': {'f': a, 'sum': x}, 'g': {'h': {'sum': x}}, 'k': a, 'b': {}, 'l': {'m': {'n': {'o': a}}}, 'p': a, 'q': x, 'r': a}


def impl_arrays(a: np.ndarray, b: np.ndarray, c: np.ndarray, d: np.ndarray, e: np.ndarray, f: np.ndarray, g: np.ndarray,
                x: Scalar, y: Scalar, n: int):
    ASSUME(n)
    return _combine_nested_arrays(nested(a, x), nested(b, y), nested(c, x), nested(d, y), nested(e, x), nested(f, y),
                                  nested(g, y), length_per_array=n)


def spec_arrays(a: np.ndarray, b: np.ndarray, c: np.ndarray, d: np.ndarray, e: np.ndarray, f: np.ndarray, g: np.ndarray,
                x: Scalar, y: Scalar, n: int):
    ASSUME(n)
    v = np.concatenate([a[:n], b[:n], c[:n], d[:n], e[:n], f[:n], g])
    # a bus without variables is kept, what holds scalars only is left out
    return {'e': {'f': v}, 'k': v, 'b': {}, 'l': {'m': {'n': {'o': v}}}, 'p': v, 'r': v}


def impl_scalars(a: np.ndarray, x: Scalar, y: Scalar, z: Scalar, u: Scalar, v: Scalar, w: Scalar, t: Scalar):
    return _combine_nested_scalars(nested(a, x), nested(a, y), nested(a, z), nested(a, u), nested(a, v), nested(a, w), nested(a, t))


def spec_scalars(a: np.ndarray, x: Scalar, y: Scalar, z: Scalar, u: Scalar, v: Scalar, w: Scalar, t: Scalar):
    r = [x, y, z, u, v, w, t]
    return {'e': {'sum': r}, 'g': {'h': {'sum': r}}, 'q': r}


def impl_last_step(a: np.ndarray, x: Scalar, y: Scalar, n: int):
    ASSUME(n)
    return _combine_nested_arrays({'e': {'f': a, 'sum': y}}, {'e': {'f': x, 'sum': y}}, length_per_array=n)


def spec_last_step(a: np.ndarray, x: Scalar, y: Scalar, n: int):
    ASSUME(n)
    return {'e': {'f': np.concatenate([a[:n], np.atleast_1d(x)])}}


def impl_trim(a: np.ndarray, b: np.ndarray, n: int):
    ASSUME(n)
    return _combine_nested_arrays({'e': a}, {'e': b}, trim=n)


def spec_trim(a: np.ndarray, b: np.ndarray, n: int):
    ASSUME(n)
    return {'e': np.concatenate([a[:-n], b])}


def impl_run(name: str, s: FlowSystem, length: int, overlap: int, solver: Solver, save: bool):
    c = SegmentedCalculation(name, s, length, overlap)
    c.number_of_segments = 7
    c.do_modeling_and_solve(solver, save)
    return len(c.sub_calculations)


def spec_run(name: str, s: FlowSystem, length: int, overlap: int, solver: Solver, save: bool):
    c = SegmentedCalculation(name, s, length, overlap)
    c._define_path_names(save)
    for i in range(7):
        if i > 0:
            c._transfer_start_values(f'Segment_{i + 1}')
        calculation = FullCalculation(f'Segment_{i + 1}', s, 'pyomo', c._get_indices(i))
        calculation.do_modeling()
        calculation.solve(solver, False)
    c._reset_start_values()
    if save:
        c._save_solve_infos()
    return 7


def impl_fail(c: SegmentedCalculation, solver: Solver):
    c.number_of_segments = 1
    c.do_modeling_and_solve(solver, False)


def spec_fail(c: SegmentedCalculation, solver: Solver):
    c.sub_calculations = []
    try:
        calculation = FullCalculation('Segment_1', c.flow_system, c.modeling_language, c._get_indices(0))
        calculation.do_modeling()
        calculation.solve(solver, False)
    finally:
        c._reset_start_values()


def impl_aggregated(name: str, s: FlowSystem, p: AggregationParameters, chosen: Optional[List[Component]],
                    steps: Optional[List[int]]):
    c = AggregatedCalculation(name, s, p, chosen, 'pyomo', steps)
    m = c.do_modeling()
    return m is c.system_model


def spec_aggregated(name: str, s: FlowSystem, p: AggregationParameters, chosen: Optional[List[Component]],
                    steps: Optional[List[int]]):
    import pandas as pd
    s.transform_data()
    for t in s.all_time_series:
        t.activate_indices(steps)
    time, _, dt, _ = s.get_time_data_from_indices(steps)
    if np.min(dt) != np.max(dt):
        raise ValueError('time steps differ')
    if not (p.hours_per_period / dt[0]).is_integer():
        raise Exception('no multiple')
    data = TimeSeriesCollection([t for t in s.all_time_series if t.is_array])
    a = Aggregation(pd.DataFrame(data.data, index=time), np.min(dt), p.hours_per_period, p.nr_of_periods, data.weights,
                    p.labels_for_high_peaks, p.labels_for_low_peaks)
    a.cluster()
    if p.aggregate_data_and_fix_non_binary_vars:
        data.insert_data({k: np.array(v) for k, v in a.aggregated_data.to_dict(orient='list').items()})
    m = SystemModel(name, 'pyomo', s, steps)
    m.do_modeling()
    more = AggregationModel(p, s, a, chosen)
    m.other_models.append(more)
    more.do_modeling(m)
    m.translate_to_modeling_language()
    return True


def impl_solve_aggregated(c: AggregatedCalculation, solver: Solver, save: Union[bool, str]):
    c.solve(solver, save)


def spec_solve_aggregated(c: AggregatedCalculation, solver: Solver, save: Union[bool, str]):
    c._define_path_names(save)
    solver.logfile_name = c._paths['log']
    c.system_model.solve(solver)
    c._results = None
    if save:
        c._save_solve_infos()
