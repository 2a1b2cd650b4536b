"""What a calculation writes, and where"""
from typing import Any, Dict, List, Optional, Union
import json
import logging
import pathlib
import numpy as np
import yaml
from flixOpt.calculation import Calculation, FullCalculation, SegmentedCalculation, AggregatedCalculation
from flixOpt.elements import BusModel
from flixOpt import utils
from flixOpt.flow_system import FlowSystem
from flixOpt.results import CalculationResults
from flixOpt.structure import (ElementModel, SystemModel, copy_and_convert_datatypes, get_compact_representation)
from flixOpt.config import CONFIG

logger = logging.getLogger('flixOpt')

PARTS = ['copy_and_convert_datatypes', 'get_compact_representation', 'FlowSystem.infos', 'FlowSystem.network_infos',
         'SystemModel.infos', 'SystemModel.results', '_combine_nested_arrays', '_combine_nested_scalars']

OBLIGATIONS = [
    dict(property='C30', name='places of the files', impl='impl_places', spec='spec_places', raw=True,
         anchor='Calculation._define_path_names', effects=['m:mkdir', '.*mkdir.*'], may_fail=False),
    dict(property='C30', name='saved files', impl='impl_save', spec='spec_save', raw=True,
         anchor='Calculation._save_solve_infos', effects=['.*dump.*'], opaque=PARTS + ['=Calculation.infos'], may_fail=False),
    dict(property='C30', name='saved files of segments', impl='impl_save_segments', spec='spec_save_segments', raw=True,
         anchor='SegmentedCalculation._save_solve_infos', effects=['.*dump.*'], opaque=PARTS + ['=Calculation.infos',
                                                                                             'SegmentedCalculation.results'],
         may_fail=False),
    dict(property='C30', also=['C28'], name='results of segments', impl='impl_results_segments', spec='spec_results_segments', raw=True,
         anchor='SegmentedCalculation.results', effects=[], opaque=['=Calculation.results', '_combine_nested_arrays',
                                                                   '_combine_nested_scalars'], observe=['return', 'rejects']),
    dict(property='C30', also=['C33'], name='loaded data', impl='impl_loaded', spec='spec_loaded', raw=True, recurse=5,
         anchor='convert_numeric_lists_to_arrays', effects=[], may_fail=False),
    dict(property='C30', name='infos of a calculation', impl='impl_infos', spec='spec_infos', raw=True,
         anchor='Calculation.infos', effects=[], may_fail=False),
    dict(property='C30', also=['C33'], name='results of an element', impl='impl_element', spec='spec_element', raw=True,
         anchor='ElementModel.results', effects=[], may_fail=False),
    dict(property='C30', name='results of a system', impl='impl_system', spec='spec_system', raw=True,
         anchor='SystemModel.results', effects=[], may_fail=False,
         opaque=['ElementModel.results', 'EffectCollectionModel.results', 'SystemModel.component_models',
                 'SystemModel.bus_models']),
    dict(property='C30', name='main results', impl='impl_main', spec='spec_main', raw=True,
         anchor='SystemModel.main_results', effects=[], may_fail=False, opaque=['SystemModel.sub_models', 'FlowSystem.buses']),
]


def impl_places(name: str, s: FlowSystem, save: Union[bool, str]):
    c = FullCalculation(name, s)
    c._define_path_names(save)
    return c._paths['log'], c._paths.get('data'), c._paths.get('results'), c._paths.get('infos')


def spec_places(name: str, s: FlowSystem, save: Union[bool, str]):
    if not save:
        return None, None, None, None
    folder = pathlib.Path.cwd() / (save if isinstance(save, (str, pathlib.Path)) else 'results/')
    folder.mkdir(parents=True, exist_ok=True)
    return (folder / f'{name}_solver.log', folder / f'{name}_data.json', folder / f'{name}_results.json',
            folder / f'{name}_infos.yaml')


def impl_save(c: FullCalculation):
    c._save_solve_infos()


def spec_save(c: FullCalculation):
    indent = 4 if len(c.flow_system.time_series) < 50 else None
    with open(c._paths['results'], 'w', encoding='utf-8') as f:
        json.dump(copy_and_convert_datatypes(c.results(), use_numpy=False, use_element_label=False), f, indent=indent)
    with open(c._paths['data'], 'w', encoding='utf-8') as f:
        json.dump(copy_and_convert_datatypes(c.flow_system.infos(), use_numpy=False, use_element_label=False), f, indent=indent)
    nodes, edges = c.flow_system.network_infos()
    with open(c._paths['infos'], 'w', encoding='utf-8') as f:
        yaml.dump({'Calculation': c.infos, 'Model': c.system_model.infos,
                   'FlowSystem': get_compact_representation(c.flow_system.infos(use_numpy=True, use_element_label=True)),
                   'Network': {'Nodes': nodes, 'Edges': edges}}, f, width=1000, allow_unicode=True, sort_keys=False)


def impl_save_segments(c: SegmentedCalculation):
    c._save_solve_infos()


def spec_save_segments(c: SegmentedCalculation):
    indent = 4 if len(c.flow_system.time_series) < 50 else None
    with open(c._paths['results'], 'w', encoding='utf-8') as f:
        json.dump(copy_and_convert_datatypes(c.results(combined_arrays=True), use_numpy=False, use_element_label=False), f, indent=indent)
    with open(c._paths['data'], 'w', encoding='utf-8') as f:
        json.dump(copy_and_convert_datatypes(c.flow_system.infos(), use_numpy=False, use_element_label=False), f, indent=indent)
    with open(c._paths['results'].parent / f'{c.name}_results_extra.json', 'w', encoding='utf-8') as f:
        json.dump({'Individual Results': copy_and_convert_datatypes(c.results(individual_results=True), use_numpy=False, use_element_label=False),
                   'Skalar Results': copy_and_convert_datatypes(c.results(combined_scalars=True), use_numpy=False, use_element_label=False)},
                  f, indent=indent)
    nodes, edges = c.flow_system.network_infos()
    with open(c._paths['infos'], 'w', encoding='utf-8') as f:
        yaml.dump({'Calculation': c.infos, 'Model': c.sub_calculations[0].system_model.infos,
                   'FlowSystem': get_compact_representation(c.flow_system.infos(use_numpy=True, use_element_label=True)),
                   'Network': {'Nodes': nodes, 'Edges': edges}}, f, width=1000, allow_unicode=True, sort_keys=False)


def impl_results_segments(c: SegmentedCalculation, a: FullCalculation, b: FullCalculation, d: FullCalculation, e: FullCalculation,
                          f: FullCalculation, g: FullCalculation, arrays: bool, scalars: bool, single: bool):
    c.sub_calculations = [a, b, d, e, f, g]
    return c.results(arrays, scalars, single)


def spec_results_segments(c: SegmentedCalculation, a: FullCalculation, b: FullCalculation, d: FullCalculation, e: FullCalculation,
                          f: FullCalculation, g: FullCalculation, arrays: bool, scalars: bool, single: bool):
    from flixOpt.calculation import _combine_nested_arrays, _combine_nested_scalars
    if arrays + scalars + single != 1:
        raise AssertionError('one of them')
    r = [a.results(), b.results(), d.results(), e.results(), f.results(), g.results()]
    if arrays:
        return _combine_nested_arrays(*r, length_per_array=c.segment_length)
    if scalars:
        return _combine_nested_scalars(*r)
    return {'Segment_1': r[0], 'Segment_2': r[1], 'Segment_3': r[2], 'Segment_4': r[3], 'Segment_5': r[4], 'Segment_6': r[5]}


def impl_infos(name: str, s: FlowSystem, steps: Optional[List[int]]):
    c = FullCalculation(name, s, 'pyomo', steps)
    return c.infos


def spec_infos(name: str, s: FlowSystem, steps: Optional[List[int]]):
    return {'Name': name, 'Number of indices': len(steps) if steps else 'all', 'Calculation Type': 'FullCalculation',
            'Durations': {'modeling': 0.0, 'solving': 0.0, 'saving': 0.0}}


def impl_element(m: BusModel):
    return m.results()


def spec_element(m: BusModel):
    r = {}
    for v in m.variables.values():
        r[v.label_short] = v.result
    for x in m.sub_models:
        r[x.label] = x.results()
    return r


def impl_system(m: SystemModel):
    return m.results()


def spec_system(m: SystemModel):
    return {'Components': {x.element.label: x.results() for x in m.component_models},
            'Effects': m.effect_collection_model.results(),
            'Buses': {x.element.label: x.results() for x in m.bus_models},
            'Others': {x.element.label: x.results() for x in m.other_models},
            'Objective': m.result_of_objective, 'Time': m.time_series_with_end, 'Time intervals in hours': m.dt_in_hours}


def impl_main(m: SystemModel):
    return m.main_results


def spec_main(m: SystemModel):
    from flixOpt.features import InvestmentModel
    effects = {}
    for e in m.flow_system.effect_collection.effects.values():
        effects[f'{e.label} [{e.unit}]'] = {'operation': float(e.model.operation.sum.result),
                                            'invest': float(e.model.invest.sum.result), 'sum': float(e.model.all.sum.result)}
    with_excess = [b.label for b in m.flow_system.buses.values() if b.with_excess and (
        np.sum(b.model.excess_input.result) > 1e-3 or np.sum(b.model.excess_output.result) > 1e-3)]
    sizes = [(x.element.label_full, float(x.size.result)) for x in m.sub_models if isinstance(x, InvestmentModel)]
    return {'Effects': effects, 'penalty': float(m.effect_collection_model.penalty.sum.result),
            'Objective': m.result_of_objective, 'lower bound': m.solver.best_bound, 'buses with excess': with_excess,
            'Invest-Decisions': {'invested': {k: v for k, v in sizes if v > 1e-3},
                                 'not invested': {k: v for k, v in sizes if v <= 1e-3}}}


def impl_loaded():
    x, y, label = 1.5, 3, 'text'
    return utils.convert_numeric_lists_to_arrays({
        'label': label, 'size': 5, 'none': None, 'flag': True, 'empty': [], 'series': [x, y, 2.5], 'one': [x],
        'long': [1, 2, 3, 4, 5, 6, 7], 'words': [label, label], 'mixed': [1, 2, 3, 4, 5, 6, label],
        'deep': {'a': {'b': {'c': [y, x]}}, 'p': 1, 'q': 2, 'r': 3, 's': 4, 't': [x, x], 'u': {'v': [y]}},
        'parts': [{'f': [x]}, {'g': [y]}, {'h': label}, [1, 2], [label, [3, x]], 'x', {'i': [x, y]}],
        'pairs': (1, 2), 'last': [[x, y], [y, x]]})


def spec_loaded():
    x, y, label = 1.5, 3, 'text'
    return {'label': label, 'size': 5, 'none': None, 'flag': True, 'empty': [], 'series': np.array([x, y, 2.5]), 'one': np.array([x]),
            'long': np.array([1, 2, 3, 4, 5, 6, 7]), 'words': [label, label], 'mixed': [1, 2, 3, 4, 5, 6, label],
            'deep': {'a': {'b': {'c': np.array([y, x])}}, 'p': 1, 'q': 2, 'r': 3, 's': 4, 't': np.array([x, x]), 'u': {'v': np.array([y])}},
            'parts': [{'f': np.array([x])}, {'g': np.array([y])}, {'h': label}, np.array([1, 2]), [label, np.array([3, x])], 'x',
                      {'i': np.array([x, y])}],
            'pairs': [1, 2], 'last': [np.array([x, y]), np.array([y, x])]}
