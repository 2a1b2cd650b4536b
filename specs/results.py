"""Results: tables of loaded calculations"""
from typing import Any, Dict, List, Optional, Union
import datetime
import json
import logging
import pathlib
import numpy as np
import pandas as pd
import yaml
from flixOpt import plotting, utils
from flixOpt.results import (BusResults, CalculationResults, ComponentResults, EffectResults, ElementResults, FlowResults,
                             extract_results, extract_single_result, flatten_dict)

logger = logging.getLogger('flixOpt')

PLOTS = ['with_plotly', 'with_matplotlib', 'heat_map_plotly', 'heat_map_matplotlib', 'heat_map_data_from_df', 'visualize_network']

OBLIGATIONS = [
    dict(property='C33', name='results of a flow', impl='impl_flow', spec='spec_flow', raw=True,
         anchor='FlowResults.__init__', effects=[]),
    dict(property='C33', name='flows of a component', impl='impl_flows', spec='spec_flows', raw=True,
         anchor='ComponentResults._create_flow_results', effects=[], may_fail=False),
    dict(property='C33', name='table of a component', impl='impl_component', spec='spec_component', raw=True,
         anchor='ComponentResults.to_dataframe', effects=[]),
    dict(property='C33', name='table of a bus', impl='impl_bus', spec='spec_bus', raw=True,
         anchor='BusResults.to_dataframe', effects=[]),
    dict(property='C33', name='default tables', impl='impl_defaults', spec='spec_defaults', raw=True,
         anchor='ComponentResults.to_dataframe', effects=[]),
    dict(property='C33', name='default table of an element', impl='impl_default_table', spec='spec_default_table', raw=True,
         anchor='CalculationResults.to_dataframe', observe=['return', 'rejects', 'effects'], effects=['.*'],
         opaque=['=ComponentResults.to_dataframe', '=BusResults.to_dataframe', '=FlowResults.to_dataframe',
                 'CalculationResults.flow_results']),
    dict(property='C33', name='charge states', impl='impl_charge', spec='spec_charge', raw=True,
         anchor='ComponentResults.__init__', effects=[], may_fail=False),
    dict(property='C34', name='default plots', impl='impl_default_plots', spec='spec_default_plots', raw=True, ordered=True,
         anchor='CalculationResults.plot_operation', observe=['return', 'rejects', 'effects'], effects=['.*'],
         opaque=PLOTS + ['CalculationResults.to_dataframe']),
    dict(property='C34', name='default plot of a storage', impl='impl_default_storage', spec='spec_default_storage', raw=True, ordered=True,
         anchor='CalculationResults.plot_storage', observe=['return', 'effects'], effects=['.*'],
         opaque=['CalculationResults.plot_operation']),
    dict(property='C34', name='heat map of irregular steps', impl='impl_irregular', spec='spec_irregular', raw=True, logs=True,
         anchor='CalculationResults.plot_operation', observe=['logs'], effects=[],
         opaque=PLOTS + ['CalculationResults.to_dataframe']),
    dict(property='C33', name='flows of a bus', impl='impl_buses', spec='spec_buses', raw=True,
         anchor='CalculationResults._construct_bus_results', effects=[], opaque=['CalculationResults.flow_results'], may_fail=False),
    dict(property='C33', name='flows of several buses', impl='impl_many_buses', spec='spec_many_buses', raw=True,
         anchor='CalculationResults._construct_bus_results', effects=[], opaque=['CalculationResults.flow_results'], may_fail=False),
    dict(property='C33', also=['C30'], name='loading', impl='impl_load', spec='spec_load', raw=True,
         anchor='CalculationResults.__init__', effects=[], opaque=['ComponentResults', 'CalculationResults._construct_bus_results',
         'CalculationResults._construct_effect_results', 'convert_numeric_lists_to_arrays']),
    dict(property='C33', name='table of an element', impl='impl_table', spec='spec_table', raw=True,
         anchor='CalculationResults.to_dataframe', observe=['return', 'rejects', 'effects'], effects=['.*'],
         opaque=['=ComponentResults.to_dataframe', '=BusResults.to_dataframe', '=FlowResults.to_dataframe',
                 'CalculationResults.flow_results']),
    dict(property='C33', name='effects', impl='impl_effects', spec='spec_effects', raw=True,
         anchor='CalculationResults._construct_effect_results', effects=[], may_fail=False),
    dict(property='C33', name='flows by label', impl='impl_by_label', spec='spec_by_label', raw=True,
         anchor='CalculationResults.flow_results', effects=[], may_fail=False),
    dict(property='C33', name='picked results', impl='impl_pick', spec='spec_pick', raw=True,
         anchor='extract_results', effects=[], may_fail=False, recurse=8),
    dict(property='C33', name='flat results', impl='impl_flat', spec='spec_flat', raw=True,
         anchor='flatten_dict', effects=[], may_fail=False, recurse=8),
    dict(property='C34', name='plot of an operation', impl='impl_plot', spec='spec_plot', raw=True,
         anchor='CalculationResults.plot_operation', observe=['return', 'rejects', 'effects'], effects=['call:plotting.*', 'plotting.*'],
         opaque=PLOTS + ['CalculationResults.to_dataframe']),
    dict(property='C34', name='plot of a storage', impl='impl_storage', spec='spec_storage', raw=True, ordered=True,
         anchor='CalculationResults.plot_storage', observe=['return', 'effects'], effects=['.*'],
         opaque=['CalculationResults.plot_operation']),
    dict(property='C34', name='plot of the network', impl='impl_network', spec='spec_network', raw=True,
         anchor='CalculationResults.visualize_network', observe=['return', 'effects'], effects=['.*'], opaque=PLOTS),
]


def impl_flow(label: str, bus: str, component: str, variables: Dict[str, np.ndarray], inside: bool, name: str):
    r = FlowResults({'label': label, 'bus': {'label': bus}, 'is_input_in_component': inside}, variables, component)
    return r.label, r.label_full, r.bus_label, r.component_label, r.is_input_in_component, r.to_dataframe(name)


def spec_flow(label: str, bus: str, component: str, variables: Dict[str, np.ndarray], inside: bool, name: str):
    return label, f'{component}__{label}', bus, component, inside, pd.DataFrame({name: np.atleast_1d(variables[name])})


def flow_info(label, bus, inside):
    return {'label': label, 'bus': {'label': bus}, 'is_input_in_component': inside}


def impl_flows(x: str, bus: str, v: Dict[str, np.ndarray], w: Dict[str, np.ndarray], u: Dict[str, np.ndarray]):
    r = ComponentResults({'label': x, 'inputs': [flow_info(f, bus, True) for f in 'fgijkl'],
                          'outputs': [flow_info(h, 'b', False) for h in 'hmnopq']},
                         {'g': v, 'h': w, 'other': {}, 'f': u, 'i': v, 'j': v, 'k': v, 'l': u, 'm': v, 'n': v, 'o': w, 'p': w, 'q': u})
    return [(f.label_full, f.bus_label, f.variables) for f in r.inputs], [(f.label_full, f.bus_label, f.variables) for f in r.outputs]


def spec_flows(x: str, bus: str, v: Dict[str, np.ndarray], w: Dict[str, np.ndarray], u: Dict[str, np.ndarray]):
    return ([(f'{x}__{f}', bus, values) for f, values in zip('fgijkl', [u, v, v, v, v, u])],
            [(f'{x}__{h}', 'b', values) for h, values in zip('hmnopq', [w, v, v, w, w, u])])


def impl_component(c: ComponentResults, name: str, inside: Optional[int], outside: Optional[int]):
    return c.to_dataframe(name, inside, outside)


def spec_component(c: ComponentResults, name: str, inside: Optional[int], outside: Optional[int]):
    columns = {}
    if inside is not None:
        for f in c.inputs:
            columns[f.label_full] = np.atleast_1d(f.variables[name] * inside)
    if outside is not None:
        for f in c.outputs:
            columns[f.label_full] = np.atleast_1d(f.variables[name] * outside)
    return pd.DataFrame(data=columns)


def impl_bus(b: BusResults, name: str, inside: Optional[int], outside: Optional[int]):
    return b.to_dataframe(name, inside, outside)


def spec_bus(b: BusResults, name: str, inside: Optional[int], outside: Optional[int]):
    columns = {}
    if inside is not None:
        for f in b.inputs:
            columns[f.label_full] = np.atleast_1d(f.variables[name] * inside)
        if 'excess_input' in b.variables:
            columns['Excess Input'] = np.atleast_1d(b.variables['excess_input'] * inside)
    if outside is not None:
        for f in b.outputs:
            columns[f.label_full] = np.atleast_1d(f.variables[name] * outside)
        if 'excess_output' in b.variables:
            columns['Excess Output'] = np.atleast_1d(b.variables['excess_output'] * outside)
    return pd.DataFrame(data=columns)


def impl_buses(r: CalculationResults, x: str, infos: Dict[str, Any], results: Dict[str, Any]):
    r.bus_results = {}
    r.all_data = {'Buses': {x: infos}}
    r.all_results = {'Buses': {x: results}}
    r._construct_bus_results()
    b = r.bus_results[infos['label']]
    return b.label, b.inputs, b.outputs, b.variables, len(r.bus_results)


def spec_buses(r: CalculationResults, x: str, infos: Dict[str, Any], results: Dict[str, Any]):
    flows = r.flow_results().values()
    return (infos['label'], [f for f in flows if f.bus_label == x and not f.is_input_in_component],
            [f for f in flows if f.bus_label == x and f.is_input_in_component], results, 1)


def impl_many_buses(r: CalculationResults, results: Dict[str, Any]):
    r.bus_results = {}
    r.all_data = {'Buses': {x: {'label': x} for x in 'abcdefg'}}
    r.all_results = {'Buses': {x: results for x in 'abcdefg'}}
    r._construct_bus_results()
    return [(k, b.inputs, b.outputs) for k, b in r.bus_results.items()]


def spec_many_buses(r: CalculationResults, results: Dict[str, Any]):
    flows = r.flow_results().values()
    return [(x, [f for f in flows if f.bus_label == x and not f.is_input_in_component],
             [f for f in flows if f.bus_label == x and f.is_input_in_component]) for x in 'abcdefg']


def impl_load(name: str, folder: str):
    r = CalculationResults(name, folder)
    return {'name': r.name, 'infos': r.calculation_infos, 'results': r.all_results, 'time': r.time, 'end': r.time_with_end,
            'hours': r.time_intervals_in_hours, 'components': r.component_results}


def spec_load(name: str, folder: str):
    place = pathlib.Path(folder)
    with open(place / f'{name}_infos.yaml', 'rb') as f:
        infos = yaml.safe_load(f)
    with open(place / f'{name}_results.json', 'rb') as f:
        results = utils.convert_numeric_lists_to_arrays(json.load(f))
    with open(place / f'{name}_data.json', 'rb') as f:
        data = utils.convert_numeric_lists_to_arrays(json.load(f))
    time = np.array([datetime.datetime.fromisoformat(x) for x in results['Time']]).astype('datetime64')
    components = {}
    for key, values in results['Components'].items():
        c = ComponentResults(data['Components'].get(key, {}), values)
        components[c.label] = c
    return {'name': name, 'infos': infos, 'results': results, 'time': time[:-1], 'end': time,
            'hours': np.array(results['Time intervals in hours']), 'components': components}


def impl_table(r: CalculationResults, label: str, name: str, inside: Optional[int], outside: Optional[int],
               threshold: Optional[float], last: bool):
    return r.to_dataframe(label, name, inside, outside, threshold, last)


def spec_table(r: CalculationResults, label: str, name: str, inside: Optional[int], outside: Optional[int],
               threshold: Optional[float], last: bool):
    element = {**r.component_results, **r.bus_results}.get(label)
    flow = r.flow_results().get(label)
    if element is not None and flow is not None:
        raise Exception('twice')
    if element is None and flow is None:
        raise ValueError('no element')
    df = element.to_dataframe(name, inside, outside) if element is not None else flow.to_dataframe(name)
    if threshold is not None:
        df = df.loc[:, ((df > threshold) | (df < -threshold)).any()]
    if df.empty:
        return df
    if last and len(df) == len(r.time):
        df.loc[len(df)] = df.iloc[-1]
    df.index = r.time_with_end if last or len(df) == len(r.time_with_end) else r.time
    return df


def impl_effects(r: CalculationResults, values: Dict[str, Any], others: Dict[str, Any], penalty: Dict[str, Any]):
    r.effect_results = {}
    r.all_data = {'Effects': {e: {'label': 'Effect ' + e} for e in 'abcdef'}}
    r.all_results = {'Effects': {'a': others, 'b': values, 'c': others, 'd': others, 'penalty': penalty, 'e': values, 'f': values}}
    r._construct_effect_results()
    return {k: v.all_results for k, v in r.effect_results.items()}


def spec_effects(r: CalculationResults, values: Dict[str, Any], others: Dict[str, Any], penalty: Dict[str, Any]):
    return {'Effect a': others, 'Effect b': values, 'Effect c': others, 'Effect d': others, 'Penalty': penalty, 'Effect e': values,
            'Effect f': values}


def impl_by_label(r: CalculationResults):
    return r.flow_results()


def spec_by_label(r: CalculationResults):
    flows = {}
    for c in r.component_results.values():
        for f in c.inputs + c.outputs:
            flows[f.label_full] = f
    return flows


def nested(a, b, c):
    return {'x': {'f': {'rate': a, 'sum': b}}, 'y': {'f': {'rate': c}}, 'z': {}, 'w': {'f': b}, 'v': {'f': {'rate': b, 'sum': b}},
            'u': {'f': {'rate': a}}, 't': {'f': {'rate': c, 'sum': a}}, 's': {'a': {'b': {'c': {'d': {'e': {'f': a}}}}}}}


def impl_pick(a: np.ndarray, b: Scalar, c: np.ndarray, keep: bool):
    data = nested(a, b, c)
    return {'one': extract_single_result(data, ['x', 'f', 'sum']), 'none': extract_single_result(data, ['x', 'g', 'sum']),
            'deep': extract_single_result(data, ['s', 'a', 'b', 'c', 'd', 'e', 'f']),
            'rate': extract_results(data, ['f', 'rate'], keep), 'f': extract_results(data, ['f'], keep),
            'default': extract_results(data, ['f', 'sum'])}


def spec_pick(a: np.ndarray, b: Scalar, c: np.ndarray, keep: bool):
    rate = {'x': a, 'y': c, 'z': None, 'w': None, 'v': b, 'u': a, 't': c, 's': None}
    f = {'x': {'rate': a, 'sum': b}, 'y': {'rate': c}, 'z': None, 'w': b, 'v': {'rate': b, 'sum': b}, 'u': {'rate': a},
         't': {'rate': c, 'sum': a}, 's': None}
    if not keep:
        rate = {'x': a, 'y': c, 'v': b, 'u': a, 't': c}
        f = {'x': f['x'], 'y': f['y'], 'w': b, 'v': f['v'], 'u': f['u'], 't': f['t']}
    return {'one': b, 'none': None, 'deep': a, 'rate': rate, 'f': f, 'default': {'x': b, 'v': b, 't': a}}


def impl_flat(a: np.ndarray, b: Scalar, c: np.ndarray):
    return {'r': ElementResults({'label': 'x'}, nested(a, b, c)).variables_flat,
            'point': flatten_dict({'f': {'rate': a}, 'c': c}, sep='.'), 'top': flatten_dict({'f': {'rate': a}, 'c': c}, 'x')}


def spec_flat(a: np.ndarray, b: Scalar, c: np.ndarray):
    return {'r': {'x__f__rate': a, 'x__f__sum': b, 'y__f__rate': c, 'w__f': b, 'v__f__rate': b, 'v__f__sum': b, 'u__f__rate': a,
                  't__f__rate': c, 't__f__sum': a, 's__a__b__c__d__e__f': a},
            'point': {'f.rate': a, 'c': c}, 'top': {'x__f__rate': a, 'x__c': c}}


def impl_plot(r: CalculationResults, label: str, mode: str, name: str, periods: str, steps: str, colors: Union[str, List[str]],
              engine: str, invert: bool, show: bool, save: bool, path: Union[str, pathlib.Path]):
    return r.plot_operation(label, mode, name, periods, steps, colors, engine, invert, show, save, path)


def spec_plot(r: CalculationResults, label: str, mode: str, name: str, periods: str, steps: str, colors: Union[str, List[str]],
              engine: str, invert: bool, show: bool, save: bool, path: Union[str, pathlib.Path]):
    if mode == 'heatmap' and not isinstance(colors, str):
        raise ValueError('one colormap')
    title = f'{name.replace("_", " ").title()} of {label}'
    if path == 'auto':
        kind = 'html' if engine == 'plotly' else 'png'
        shown = f'{mode} {periods}-{steps}' if mode == 'heatmap' else mode
        path = r.folder / f'{title} ({shown}).{kind}'
    sign = -1 if invert else 1
    df = r.to_dataframe(label, name, input_factor=-sign, output_factor=sign)
    if mode == 'heatmap':
        df = plotting.heat_map_data_from_df(df, periods, steps, 'ffill')
    if engine == 'plotly':
        if mode == 'heatmap':
            return plotting.heat_map_plotly(df, title=title, color_map=colors, show=show, save=save, path=path)
        return plotting.with_plotly(data=df, mode=mode, show=show, title=title, colors=colors, save=save, path=path)
    if engine != 'matplotlib':
        raise ValueError('engine')
    if mode == 'heatmap':
        return plotting.heat_map_matplotlib(df, color_map=colors, show=show, path=path if save else None)
    return plotting.with_matplotlib(data=df, mode=mode, colors=colors, show=show, path=path if save else None)


def impl_storage(r: CalculationResults, label: str, name: str, mode: str, colors: str, invert: bool, show: bool, save: bool, path: Union[str, pathlib.Path]):
    return r.plot_storage(label, name, mode, colors, invert, show, save, path)


def spec_storage(r: CalculationResults, label: str, name: str, mode: str, colors: str, invert: bool, show: bool, save: bool, path: Union[str, pathlib.Path]):
    import plotly
    fig = r.plot_operation(label, mode, name, invert=invert, engine='plotly', show=False, colors=colors, save=False)
    element = r.bus_results[label] if label in r.bus_results else r.component_results[label]
    fig.add_trace(plotly.graph_objs.Scatter(x=r.time_with_end, y=element.variables['charge_state'], mode='lines',
                                            name='Charge State'))
    title = f'{name.replace("_", " ").title()} and Charge State of {label}'
    fig.update_layout(title=title)
    if path == 'auto':
        path = (r.folder / f'{title} ({mode}).html').as_posix()
    elif isinstance(path, pathlib.Path):
        path = path.as_posix()
    if show:
        plotly.offline.plot(fig, filename=path)
    elif save:
        fig.write_html(path)
    return fig


def impl_network(r: CalculationResults, path: Union[bool, str], controls: Union[bool, List[str]], show: bool):
    return r.visualize_network(path, controls, show)


def spec_network(r: CalculationResults, path: Union[bool, str], controls: Union[bool, List[str]], show: bool):
    return plotting.visualize_network(r.calculation_infos['Network']['Nodes'], r.calculation_infos['Network']['Edges'],
                                      path, controls, show)


def impl_defaults(c: ComponentResults, b: BusResults, f: FlowResults):
    return c.to_dataframe(), b.to_dataframe(), f.to_dataframe()


def spec_defaults(c: ComponentResults, b: BusResults, f: FlowResults):
    # documented defaults: the flow rate, inputs negative, outputs positive
    return (c.to_dataframe('flow_rate', -1, 1), b.to_dataframe('flow_rate', -1, 1), f.to_dataframe('flow_rate'))


def impl_default_table(r: CalculationResults, label: str):
    return r.to_dataframe(label)


def spec_default_table(r: CalculationResults, label: str):
    return r.to_dataframe(label, 'flow_rate', -1, 1, 1e-5, True)


def impl_charge(x: str, bus: str, v: Dict[str, np.ndarray], w: Dict[str, np.ndarray], e: np.ndarray, s: Scalar):
    r = ComponentResults({'label': x, 'inputs': [flow_info('f', bus, True)], 'outputs': [flow_info('h', 'b', False)]},
                         {'f': v, 'h': w, 'charge_state': e, 'Investment': {'size': s}})
    b = BusResults({'label': bus}, {'excess_input': e}, [], r.inputs)
    return r.label, r.variables['charge_state'], r.variables['Investment'], b.label, b.variables, b.inputs, b.outputs[0].label


def spec_charge(x: str, bus: str, v: Dict[str, np.ndarray], w: Dict[str, np.ndarray], e: np.ndarray, s: Scalar):
    return x, e, {'size': s}, bus, {'excess_input': e}, [], 'f'


def impl_default_plots(r: CalculationResults, label: str, mode: str):
    return r.plot_operation(label), r.plot_operation(label, 'heatmap'), r.plot_operation(label, mode), r.visualize_network()


def spec_default_plots(r: CalculationResults, label: str, mode: str):
    area = r.plot_operation(label, mode='area', variable_name='flow_rate', heatmap_periods='D', heatmap_steps_per_period='h',
                            colors='viridis', engine='plotly', invert=True, show=True, save=False, path='auto')
    heat = r.plot_operation(label, mode='heatmap', variable_name='flow_rate', heatmap_periods='D', heatmap_steps_per_period='h',
                            colors='viridis', engine='plotly', invert=True, show=True, save=False, path='auto')
    other = r.plot_operation(label, mode=mode, variable_name='flow_rate', heatmap_periods='D', heatmap_steps_per_period='h',
                             colors='viridis', engine='plotly', invert=True, show=True, save=False, path='auto')
    return area, heat, other, r.visualize_network('results/network.html', True, True)


def impl_default_storage(r: CalculationResults, label: str):
    return r.plot_storage(label)


def spec_default_storage(r: CalculationResults, label: str):
    return r.plot_storage(label, variable_name='flow_rate', mode='area', colors='viridis', invert=True, show=True, save=False,
                          path='auto')


def impl_irregular(r: CalculationResults, label: str, mode: str):
    r.plot_operation(label, mode, show=False)


def spec_irregular(r: CalculationResults, label: str, mode: str):
    if mode == 'heatmap' and not np.all(r.time_intervals_in_hours == r.time_intervals_in_hours[0]):
        logger.warning('irregular')
