"""What reports and texts say: the values they show, in order, whatever the words around them"""
import inspect
import logging
import re
from typing import Dict, List
import numpy as np
from flixOpt import utils
from flixOpt.aggregation import TimeSeriesCollection
from flixOpt.config import ColoredMultilineFormater, MultilineFormater
from flixOpt.core import TimeSeries, TimeSeriesData
from flixOpt.elements import Flow
from flixOpt.flow_system import FlowSystem
from flixOpt.math_modeling import MathModel, Solver, SolverLog
from flixOpt.results import ElementResults
from flixOpt.structure import SystemModel, copy_and_convert_datatypes, get_compact_representation, get_str_representation

logger = logging.getLogger('flixOpt')

TEXT = dict(property='C49', raw=True, effects=[], may_fail=False)

OBLIGATIONS = [
    dict(name='table of values', impl='impl_table', spec='spec_table', anchor='apply_formating', **TEXT),
    dict(name='text of a collection', impl='impl_collection', spec='spec_collection',
         anchor='TimeSeriesCollection.description', **TEXT),
    dict(name='text of a flow system', impl='impl_system', spec='spec_system', anchor='FlowSystem.__repr__',
         opaque=['FlowSystem.infos', 'get_str_representation'], **TEXT),
    dict(name='text of a model size', impl='impl_size', spec='spec_size', anchor='MathModel.describe_size',
         opaque=['MathModel.variables', 'MathModel.equations', 'MathModel.inequations'], **TEXT),
    dict(name='text of a solver', impl='impl_solver', spec='spec_solver', anchor='Solver.__repr__', **TEXT),
    dict(name='text of element results', impl='impl_results', spec='spec_results', anchor='ElementResults.__repr__', **TEXT),
    dict(name='text of a series', impl='impl_series', spec='spec_series', anchor='TimeSeries.__str__', **TEXT),
    dict(name='lines of the log', impl='impl_lines', spec='spec_lines', anchor='MultilineFormater.format', **TEXT),
    dict(property='C49', name='report after solving', impl='impl_report', spec='spec_report', anchor='SystemModel.solve',
         raw=True, observe=['logs'], logs='said',
         opaque=['=MathModel.solve', 'SystemModel.main_results', 'MathModel.describe_size', 'apply_formating']),
    dict(name='coloured lines of the log', impl='impl_colour', spec='spec_colour', anchor='ColoredMultilineFormater.format',
         opaque=['=MultilineFormater.format'], **TEXT),
    dict(name='text of weighted data', impl='impl_data', spec='spec_data', anchor='TimeSeriesData.__repr__', **TEXT),
    dict(name='text of an element', impl='impl_element', spec='spec_element', anchor='Interface.__repr__',
         opaque=['Flow.infos', 'get_str_representation'], **TEXT),
    dict(name='compact data', impl='impl_compact', spec='spec_compact', anchor='get_compact_representation',
         opaque=['copy_and_convert_datatypes'], **TEXT),
    dict(name='reading a solver log', impl='impl_parse', spec='spec_parse', anchor='SolverLog.parse_infos', property='C49',
         raw=True, observe=['return', 'rejects']),
    dict(name='numbers of a solver log', impl='impl_log', spec='spec_log', anchor='SolverLog.infos', **TEXT),
]


def impl_table(d: Dict[str, float], kf: str, vf: str):
    return (utils.apply_formating(d), utils.apply_formating(d, sort_by='key'), utils.apply_formating(d, sort_by='value'))


def spec_table(d: Dict[str, float], kf: str, vf: str):
    return ('\n'.join([f'{k:<17}: {d[k]:>10.2f}' for k in d]),
            '\n'.join([f'{k:<17}: {d[k]:>10.2f}' for k in sorted(d, key=str.lower)]),
            '\n'.join([f'{k:<17}: {d[k]:>10.2f}' for k in sorted(d, key=lambda k: d[k], reverse=True)]))


def impl_collection(c: TimeSeriesCollection):
    return SAYS(c.description())


def spec_collection(c: TimeSeriesCollection):
    series = [[t.label, t.aggregation_weight, t.aggregation_group] for t in c.time_series_list]
    if c.group_weights:
        return [len(c.time_series_list), series, list(c.group_weights)]
    return [len(c.time_series_list), series]


def impl_system(f: FlowSystem):
    return SAYS(f.__repr__()), f.__str__()


def spec_system(f: FlowSystem):
    return [f.__class__.__name__, len(f.components), len(f.effect_collection.effects)], get_str_representation(f.infos(True, True))


def impl_size(m: MathModel):
    return SAYS(m.describe_size())


def spec_size(m: MathModel):
    return [len(m.equations), sum(e.length for e in m.equations), len(m.inequations), sum(e.length for e in m.inequations),
            len(m.variables), sum(v.length for v in m.variables)]


def impl_solver(s: Solver):
    return SAYS(Solver.__repr__(s))


def spec_solver(s: Solver):
    return [s.__class__.__name__, s.mip_gap, s.solver_output_to_console, s.logfile_name, s.objective, s.best_bound,
            s.termination_message]


def impl_results(r: ElementResults):
    return SAYS(r.__repr__())


def spec_results(r: ElementResults):
    return [r.__class__.__name__, r.label]


def impl_series(t: TimeSeries, d: TimeSeriesData):
    return t.__str__(), d.__str__()


def spec_series(t: TimeSeries, d: TimeSeriesData):
    return str(t.active_data), str(d.data)


def impl_lines(m: MultilineFormater, r: object):
    ASSUME(len(r.getMessage().split('\n')) > 1)
    return SAYS(MultilineFormater.format(m, r))


def spec_lines(m: MultilineFormater, r: object):
    ASSUME(len(r.getMessage().split('\n')) > 1)
    level, time = r.levelname.ljust(8), m.formatTime(r, m.datefmt)
    return [time, level, r.getMessage().split('\n')[0], [[time, level, line] for line in r.getMessage().split('\n')[1:]]]


def impl_log(s: SolverLog):
    return s.infos


def spec_log(s: SolverLog):
    return {'presolved': {'cols': s.presolved_cols, 'continuous': s.presolved_continuous, 'integer': s.presolved_integer,
                          'binary': s.presolved_binary, 'rows': s.presolved_rows, 'nonzeros': s.presolved_nonzeros}}


def impl_report(m: SystemModel, solver: Solver, t: float):
    m.solve(solver, t)


def spec_report(m: SystemModel, solver: Solver, t: float):
    logger.info(m.describe_size())
    MathModel.solve(m, solver)
    r = m.main_results
    logger.info(m.solver.termination_message)
    for name, values in r['Effects'].items():
        logger.info(f'{name}{values["operation"]}{values["invest"]}{values["sum"]}')
    logger.info(f'{r["penalty"]} {r["Objective"]}')
    logger.info(utils.apply_formating({**r['Invest-Decisions']['invested'], **r['Invest-Decisions']['not invested']}, key_format='<30', indent=2, sort_by='value'))
    for bus in r['buses with excess']:
        b = m.flow_system.buses[bus].model
        if np.sum(b.excess_input.result) + np.sum(b.excess_output.result) > t:
            logger.warning(f'{bus}')
    if r['penalty'] > 10:
        logger.warning(f'{r["penalty"]}')


def impl_colour(m: ColoredMultilineFormater, r: object):
    return SAYS(ColoredMultilineFormater.format(m, r))


def spec_colour(m: ColoredMultilineFormater, r: object):
    return [[[m.COLORS.get(r.levelname, m.RESET), line, m.RESET] for line in MultilineFormater.format(m, r).splitlines()]]


def impl_data(d: TimeSeriesData):
    return SAYS(d.__repr__())


def spec_data(d: TimeSeriesData):
    return [d.__class__.__name__, [[n, getattr(d, n, None)] for n in inspect.signature(d.__init__).parameters if n != 'self']]


def impl_element(f: Flow):
    return SAYS(f.__repr__()), f.__str__()


def spec_element(f: Flow):
    return [f.__class__.__name__, [[n, getattr(f, n, None)] for n in inspect.signature(f.__init__).parameters if n != 'self']], get_str_representation(f.infos(True, True))


def impl_compact(a: np.ndarray, limit: int, decimals: int):
    ASSUME(isinstance(copy_and_convert_datatypes(a, use_numpy=True), np.ndarray))
    ASSUME(not isinstance(copy_and_convert_datatypes(a, use_numpy=True), (int, float, str, bool, type(None))))
    return SAYS(get_compact_representation(a, limit, decimals))


def spec_compact(a: np.ndarray, limit: int, decimals: int):
    x = copy_and_convert_datatypes(a, use_numpy=True)
    ASSUME(isinstance(x, np.ndarray))
    ASSUME(not isinstance(x, (int, float, str, bool, type(None))))
    if x.size > limit:
        where = np.nan if np.sum(x) == 0 else np.sum(np.linspace(0, 1, len(x)) * x) / np.sum(x)
        return [np.min(x), np.max(x), np.mean(x), np.median(x), np.std(x), len(x), where]
    return [np.around(x, decimals=decimals).tolist()]


def impl_parse(name: str, file: str):
    return SolverLog(name, file).infos['presolved']


def spec_parse(name: str, file: str):
    with open(file, 'r') as f:
        log = f.read()
    found = {n: None for n in ('cols', 'continuous', 'integer', 'binary', 'rows', 'nonzeros')}
    if name == 'gurobi':
        m = re.search(r'Presolved: (\d+) rows, (\d+) columns, (\d+) nonzeros\n'
                      r'Variable types: (\d+) continuous, (\d+) integer \((\d+) binary\)', log)
        if m:
            for n, i in (('rows', 1), ('cols', 2), ('nonzeros', 3), ('continuous', 4), ('integer', 5), ('binary', 6)):
                found[n] = int(m.group(i))
    elif name == 'cbc':
        m = re.search(r'Presolve (\d+) \((-?\d+)\) rows, (\d+) \((-?\d+)\) columns and (\d+)', log)
        if m:
            for n, i in (('rows', 1), ('cols', 3), ('nonzeros', 5)):
                found[n] = int(m.group(i))
        m = re.search(r'Presolved problem has (\d+) integers \((\d+) of which binary\)', log)
        if m:
            found['integer'], found['binary'] = int(m.group(1)), int(m.group(2))
            found['continuous'] = found['cols'] - found['integer']
    elif name != 'glpk':
        raise Exception('unknown solver')
    return found
