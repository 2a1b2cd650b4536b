"""Asking for information changes nothing: queries of models, systems, results and clusters write no attribute, no list
and no dictionary that existed before"""
from typing import Any, Dict, List, Optional, Union
import pandas as pd
from flixOpt.aggregation import Aggregation, TimeSeriesCollection
from flixOpt.calculation import AggregatedCalculation, FullCalculation, SegmentedCalculation
from flixOpt.components import LinearConverter, Sink, Source, Storage, Transmission
from flixOpt.config import CONFIG
from flixOpt.core import TimeSeries, TimeSeriesData
from flixOpt.effects import Effect
from flixOpt.elements import Bus, Flow
from flixOpt.features import ShareAllocationModel
from flixOpt.flow_system import FlowSystem
from flixOpt.interface import InvestParameters, OnOffParameters
from flixOpt.math_modeling import Equation, Inequation, MathModel, SolverLog, Summand, SumOfSummand, Variable, VariableTS
from flixOpt.results import BusResults, CalculationResults, ComponentResults, FlowResults
from flixOpt.structure import (Element, ElementModel, SystemModel, copy_and_convert_datatypes, get_compact_representation,
                               get_str_representation)
from flixOpt import utils

ASK = dict(property='C47', raw=True, observe=['effects'], writes=True, may_fail=True, spec='spec_nothing')

OBLIGATIONS = [
    dict(name='asking the model of an element', impl='impl_element_model', anchor='ElementModel.results', **ASK),
    dict(name='asking a model of shares', impl='impl_shares', anchor='ShareAllocationModel.results', **ASK),
    dict(name='asking the model of a system', impl='impl_system_model', anchor='SystemModel.infos', **ASK,
         opaque=['SystemModel.sub_models', 'SystemModel.all_variables', 'SystemModel.all_constraints', 'SystemModel.main_results',
                 'SystemModel.description_of_variables', 'SystemModel.description_of_constraints', '=MathModel.infos']),
    dict(name='listing the model of a system', impl='impl_system_lists', anchor='SystemModel.description_of_variables', **ASK,
         opaque=['ElementModel.description_of_variables', 'ElementModel.description_of_constraints']),
    dict(name='main results of a system', impl='impl_system_main', anchor='SystemModel.main_results', **ASK,
         opaque=['SystemModel.sub_models']),
    dict(name='parts of the model of a system', impl='impl_system_parts', anchor='SystemModel.all_variables', **ASK,
         opaque=['SystemModel.sub_models']),
    dict(name='models in the model of a system', impl='impl_system_models', anchor='SystemModel.sub_models', **ASK),
    dict(name='asking a model for its size', impl='impl_model', anchor='MathModel.describe_size', **ASK),
    dict(name='texts of variables and rows', impl='impl_texts', anchor='Equation.description', **ASK),
    dict(name='asking a system', impl='impl_flow_system', anchor='FlowSystem.infos', **ASK),
    dict(name='asking an element', impl='impl_elements', anchor='Interface.infos', **ASK),
    dict(name='asking a converter', impl='impl_converter', anchor='Component.infos', **ASK),
    dict(name='asking a storage', impl='impl_storage', anchor='Component.infos', **ASK),
    dict(name='asking a time series', impl='impl_series', anchor='TimeSeries.active_data', **ASK,
         transparent=['TimeSeries.active_data', 'TimeSeries.active_data_vector', 'TimeSeries.is_scalar', 'TimeSeries.is_array']),
    dict(name='asking clusters', impl='impl_clusters', anchor='Aggregation.describe_clusters', **ASK),
    dict(name='asking a collection of series', impl='impl_collection', anchor='TimeSeriesCollection.description', **ASK),
    dict(name='asking a calculation', impl='impl_calculation', anchor='Calculation.results', ignore=['setattr._results'], **ASK),
    dict(name='asking segments', impl='impl_segments', anchor='SegmentedCalculation.results',
         ignore=['setattr._results'], **ASK),
    dict(name='asking results', impl='impl_results', anchor='CalculationResults.to_dataframe', **ASK),
    dict(name='asking results of elements', impl='impl_results_parts', anchor='ComponentResults.to_dataframe', **ASK),
    dict(name='asking the configuration', impl='impl_config', anchor='CONFIG.to_dict', **ASK),
    dict(name='copies and descriptions of data', impl='impl_data', anchor='copy_and_convert_datatypes', **ASK),
]


def spec_nothing():
    pass


def impl_element_model(m: ElementModel, structured: bool):
    ElementModel.description_of_variables(m, structured)
    ElementModel.description_of_constraints(m, structured)
    m.overview_of_model_size
    m.inequations, m.equations, m.all_variables, m.all_constraints, m.all_equations, m.all_inequations, m.all_sub_models
    m.label, m.label_full
    ElementModel.results(m)


def impl_shares(m: ShareAllocationModel):
    m.results()


def impl_system_model(m: SystemModel):
    m.infos
    m.results()
    m.variables, m.equations, m.inequations, m.objective


def impl_system_lists(m: SystemModel, structured: bool):
    m.description_of_variables(structured)
    m.description_of_constraints(structured)


def impl_system_main(m: SystemModel):
    m.main_results


def impl_system_parts(m: SystemModel):
    m.all_variables, m.all_constraints


def impl_system_models(m: SystemModel):
    m.sub_models


def impl_model(m: MathModel):
    MathModel.describe_size(m)
    MathModel.results(m)


def impl_texts(v: Variable, w: VariableTS, e: Equation, i: Inequation, s: Summand, t: SumOfSummand, at: int, log: SolverLog):
    v.description(), w.description(), Equation.description(e, at), Inequation.description(i, at)
    Summand.description(s, at), SumOfSummand.description(t, at)
    log.infos


def impl_flow_system(s: FlowSystem, numpy: bool, label: bool):
    s.infos(numpy, label)
    s.network_infos()
    s.flows, s.buses, s.all_elements, s.all_time_series
    FlowSystem.__str__(s), FlowSystem.__repr__(s)


def impl_elements(b: Bus, f: Flow, e: Effect, i: InvestParameters, o: OnOffParameters, numpy: bool, label: bool):
    b.infos(numpy, label), f.infos(numpy, label), e.infos(numpy, label), i.infos(numpy, label), o.infos(numpy, label)
    b.with_excess, f.size_is_fixed, f.invest_is_optional, f.label_full, f.is_input_in_comp


def impl_converter(c: LinearConverter, numpy: bool, label: bool):
    c.infos(numpy, label)
    c.degrees_of_freedom


def impl_storage(c: Storage, t: Transmission, numpy: bool, label: bool):
    c.infos(numpy, label), t.infos(numpy, label)


def impl_series(t: TimeSeries):
    t.active_data, t.active_data_vector, t.is_scalar, t.is_array
    TimeSeries.__str__(t), TimeSeries.__repr__(t)


def impl_clusters(a: Aggregation):
    a.describe_clusters()
    a.get_cluster_indices()
    a.get_equation_indices()
    a.use_extreme_periods


def impl_collection(c: TimeSeriesCollection):
    c.description()


def impl_calculation(c: FullCalculation):
    c.results()
    c.infos


def impl_segments(c: SegmentedCalculation, a: FullCalculation, b: FullCalculation, arrays: bool, scalars: bool):
    c.results(arrays, scalars)
    c.start_values_of_segments
    c.segment_length_with_overlap
    c.infos


def impl_results(r: CalculationResults, label: str, names: Optional[List[str]]):
    r.to_dataframe(label)
    r.flow_results()


def impl_results_parts(c: ComponentResults, b: BusResults, f: FlowResults, name: str):
    c.to_dataframe(name), b.to_dataframe(name), f.to_dataframe(name)
    c.variables_flat


def impl_config():
    CONFIG.to_dict()


def impl_data(x: Dict[str, Any], numpy: bool, label: bool):
    copy_and_convert_datatypes(x, numpy, label)
    utils.convert_numeric_lists_to_arrays(x)
