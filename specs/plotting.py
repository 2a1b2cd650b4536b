"""Plots: what is drawn, shown and saved; the data stay as they were"""
from typing import Any, Dict, List, Optional, Union
import logging
import pathlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import plotly.express as px
import plotly.graph_objects as go
import plotly.offline
from flixOpt import plotting
from flixOpt.aggregation import Aggregation

logger = logging.getLogger('flixOpt')

TRACES = dict(property='C34', raw=True, effects=['add_trace', 'write_html', 'plotly.offline.plot', 'setitem', 'setattr.*', 'delitem', 'fillna', 'drop', 'insert', 'update', 'clip', 'mask', 'where'],
              observe=['effects', 'return', 'rejects'], ordered=False)

OBLIGATIONS = [
    dict(name='bars and lines', impl='impl_lines', spec='spec_lines', anchor='with_plotly', **TRACES),
    dict(name='colors', impl='impl_colors', spec='spec_colors', anchor='with_plotly', **TRACES),
    dict(name='areas', impl='impl_areas', spec='spec_areas', anchor='with_plotly', **TRACES),
    dict(name='bars and lines of matplotlib', impl='impl_mpl', spec='spec_mpl', anchor='with_matplotlib', property='C34', raw=True,
         effects=['bar', 'step', 'show', 'savefig', 'plt.show', 'pcolormesh', 'invert_yaxis', 'set_.*ticks', 'set_.*ticklabels', 'setitem', 'setattr.*', '.*subplots'], observe=['effects', 'return', 'rejects']),
    dict(name='heat map', impl='impl_heat', spec='spec_heat', anchor='heat_map_plotly', property='C34', raw=True,
         effects=['.*'], observe=['effects', 'return']),
    dict(name='heat map of matplotlib', impl='impl_heat_mpl', spec='spec_heat_mpl', anchor='heat_map_matplotlib', property='C34', raw=True,
         effects=['bar', 'step', 'show', 'savefig', 'plt.show', 'pcolormesh', 'invert_yaxis', 'set_.*ticks', 'set_.*ticklabels', 'setitem', '.*subplots'], observe=['effects', 'return']),
    dict(name='reshaped series', impl='impl_reshape', spec='spec_reshape', anchor='reshape_to_2d', property='C34', raw=True,
         effects=['.*'], observe=['effects', 'return', 'rejects']),
    dict(name='data of a heat map', impl='impl_heat_data', spec='spec_heat_data', anchor='heat_map_data_from_df', property='C34', raw=True,
         effects=['.*'], observe=['effects', 'return', 'rejects']),
    dict(name='original and aggregated data', impl='impl_aggregated', spec='spec_aggregated', anchor='Aggregation.plot', property='C34',
         raw=True, effects=['with_plotly', 'update', 'setitem'], observe=['effects', 'return'], opaque=['with_plotly']),
    dict(name='network', impl='impl_net', spec='spec_net', anchor='visualize_network', property='C34', raw=True,
         effects=['add_node', 'add_edge', 'show_buttons', 'write_html', 'webbrowser.*'], observe=['effects', 'return']),
]


def impl_lines(data: pd.DataFrame, mode: str, colors: List[str], title: str, ylabel: str, fig: Optional[go.Figure], show: bool,
               save: bool, path: Union[str, pathlib.Path]):
    ASSUME(mode != 'area')
    return plotting.with_plotly(data, mode, colors, title, ylabel, fig, show, save, path)


def spec_lines(data: pd.DataFrame, mode: str, colors: List[str], title: str, ylabel: str, fig: Optional[go.Figure], show: bool,
               save: bool, path: Union[str, pathlib.Path]):
    ASSUME(mode != 'area')
    if mode not in ('bar', 'line'):
        raise AssertionError('mode')
    if fig is None:
        fig = go.Figure()
    if data.empty:
        return fig
    if len(colors) != len(data.columns):
        raise AssertionError('colors')
    for i, c in enumerate(data.columns):
        if mode == 'bar':
            fig.add_trace(go.Bar(x=data.index, y=data[c], name=c, marker=dict(color=colors[i])))
        else:
            fig.add_trace(go.Scatter(x=data.index, y=data[c], mode='lines', name=c, line=dict(shape='hv', color=colors[i])))
    to_file(fig, show, save, path)
    return fig


def to_file(fig, show, save, path):
    if isinstance(path, pathlib.Path):
        path = path.as_posix()
    if show:
        plotly.offline.plot(fig, filename=path)
    elif save:
        fig.write_html(path)


def impl_colors(data: pd.DataFrame, colors: str, fig: go.Figure):
    ASSUME(not data.empty)
    return plotting.with_plotly(data, 'line', colors, fig=fig)


def spec_colors(data: pd.DataFrame, colors: str, fig: go.Figure):
    ASSUME(not data.empty)
    n = len(data.columns)
    names = px.colors.sample_colorscale(px.colors.get_colorscale(colors), [i / (n - 1) for i in range(n)] if n > 1 else [0])
    if len(names) != n:
        raise AssertionError('colors')
    for i, c in enumerate(data.columns):
        fig.add_trace(go.Scatter(x=data.index, y=data[c], mode='lines', name=c, line=dict(shape='hv', color=names[i])))
    return fig


def impl_areas(data: pd.DataFrame, colors: List[str], fig: go.Figure, show: bool, save: bool, path: Union[str, pathlib.Path]):
    ASSUME(not data.empty)
    return plotting.with_plotly(data, 'area', colors, fig=fig, show=show, save=save, path=path)


def spec_areas(data: pd.DataFrame, colors: List[str], fig: go.Figure, show: bool, save: bool, path: Union[str, pathlib.Path]):
    ASSUME(not data.empty)
    if len(colors) != len(data.columns):
        raise AssertionError('colors')
    color = {c: colors[i] for i, c in enumerate(data.columns)}
    drawn = data.mask((data > -1e-5) & (data < 1e-5), 0)
    positive = list(drawn.columns[(drawn >= 0).all()])
    negative = list(drawn.columns[(drawn <= 0).all() & ~(drawn >= 0).all()])
    for c in positive + negative:
        fig.add_trace(go.Scatter(x=drawn.index, y=drawn[c], mode='lines', name=c, line=dict(shape='hv', color=color[c]),
                                 fill='tonexty', stackgroup='pos' if c in positive else 'neg'))
    for c in drawn.columns:
        if c not in positive and c not in negative:
            fig.add_trace(go.Scatter(x=drawn.index, y=drawn[c], mode='lines', name=c,
                                     line=dict(shape='hv', color=color[c], dash='dash')))
    to_file(fig, show, save, path)
    return fig


def impl_mpl(data: pd.DataFrame, mode: str, colors: List[str], size, fig: Optional[Any], ax: Optional[Any], show: bool, path: Optional[str]):
    return plotting.with_matplotlib(data, mode, colors, size, fig, ax, show, path)


def spec_mpl(data: pd.DataFrame, mode: str, colors: List[str], size, fig: Optional[Any], ax: Optional[Any], show: bool, path: Optional[str]):
    if mode not in ('bar', 'line'):
        raise AssertionError('mode')
    if fig is None or ax is None:
        fig, ax = plt.subplots(figsize=size)
    if len(colors) != len(data.columns):
        raise AssertionError('colors')
    if mode == 'bar':
        above, below = np.zeros(len(data)), np.zeros(len(data))
        width = data.index.to_series().diff().dropna().min()
        for i, c in enumerate(data.columns):
            more, less = np.clip(data[c], 0, None), np.clip(data[c], None, 0)
            ax.bar(data.index, more, bottom=above, color=colors[i], label=c, width=width, align='center')
            above += more.values
            ax.bar(data.index, less, bottom=below, color=colors[i], label='', width=width, align='center')
            below += less.values
    else:
        for i, c in enumerate(data.columns):
            ax.step(data.index, data[c], where='post', color=colors[i], label=c)
    if show:
        plt.show()
    if path is not None:
        fig.savefig(path, dpi=300)
    return fig, ax


def impl_heat(data: pd.DataFrame, color: str, title: str, x: str, y: str, named: bool, show: bool, save: bool, path: Union[str, pathlib.Path]):
    return plotting.heat_map_plotly(data, color, title, x, y, named, show, save, path)


def spec_heat(data: pd.DataFrame, color: str, title: str, x: str, y: str, named: bool, show: bool, save: bool, path: Union[str, pathlib.Path]):
    fig = go.Figure(data=go.Heatmap(z=data.values, x=data.columns, y=data.index, colorscale=color, zmin=data.min().min(),
                                    zmax=data.max().max(), colorbar=dict(
        title=dict(text='Color Bar Label', side='right'), orientation='h', xref='container', yref='container', len=0.8, x=0.5, y=0.1)))
    fig.update_layout(title=title, xaxis=dict(title=x, side='top', type='category' if named else None),
                      yaxis=dict(title=y, autorange='reversed', type='category' if named else None))
    to_file(fig, show, save, path)
    return fig


def impl_heat_mpl(data: pd.DataFrame, color: str, size, show: bool, path: Optional[str]):
    return plotting.heat_map_matplotlib(data, color, size, show, path)


def spec_heat_mpl(data: pd.DataFrame, color: str, size, show: bool, path: Optional[str]):
    fig, ax = plt.subplots(figsize=size)
    ax.pcolormesh(data.values, cmap=color)
    ax.invert_yaxis()
    ax.set_xticks(np.arange(len(data.columns)) + 0.5)
    ax.set_xticklabels(data.columns, ha='center')
    ax.set_yticks(np.arange(len(data.index)) + 0.5)
    ax.set_yticklabels(data.index, va='center')
    if show:
        plt.show()
    if path is not None:
        fig.savefig(path, dpi=300)
    return fig, ax


def impl_reshape(x: np.ndarray, n: int):
    return plotting.reshape_to_2d(x, n)


def spec_reshape(x: np.ndarray, n: int):
    if x.ndim != 1:
        raise ValueError('1D')
    if x.dtype != np.float64:
        x = x.astype(np.float64)
    columns = len(x) // n
    if len(x) % n != 0:
        columns += 1
    return np.pad(x, (0, columns * n - len(x)), mode='constant', constant_values=np.nan).reshape(columns, n).T


def impl_heat_data(df: pd.DataFrame, periods: str, steps: str, fill: Optional[str]):
    ASSUME(steps in ('min', '15min', 'h', 'D', 'W'))
    return plotting.heat_map_data_from_df(df, periods, steps, fill)


def spec_heat_data(df: pd.DataFrame, periods: str, steps: str, fill: Optional[str]):
    ASSUME(steps in ('min', '15min', 'h', 'D', 'W'))
    formats = {('YS', 'W'): ('%Y', '%W'), ('YS', 'D'): ('%Y', '%j'), ('YS', 'h'): ('%Y', '%j %H:00'),
               ('MS', 'D'): ('%Y-%m', '%d'), ('MS', 'h'): ('%Y-%m', '%d %H:00'), ('W', 'D'): ('%Y-w%W', '%w_%A'),
               ('W', 'h'): ('%Y-w%W', '%w_%A %H:00'), ('D', 'h'): ('%Y-%m-%d', '%H:00'), ('D', '15min'): ('%Y-%m-%d', '%H:%M'),
               ('h', '15min'): ('%Y-%m-%d %H:00', '%M'), ('h', 'min'): ('%Y-%m-%d %H:00', '%M')}
    if not pd.api.types.is_datetime64_any_dtype(df.index):
        raise AssertionError('time stamps')
    if (periods, steps) not in formats:
        raise AssertionError('no such combination')
    period, step = formats[(periods, steps)]
    x = df.sort_index()
    mean = x.resample(steps).mean()
    if fill == 'ffill':
        mean = mean.ffill()
    elif fill == 'bfill':
        mean = mean.bfill()
    mean['period'] = mean.index.strftime(period)
    mean['step'] = mean.index.strftime(step)
    if '%w_%A' in step:
        mean['step'] = mean['step'].apply(lambda d: d.replace('0_Sunday', '7_Sunday') if '0_Sunday' in d else d)
    return mean.pivot(columns='period', index='step', values=x.columns[0])


def impl_net(nodes: Dict[str, Dict[str, str]], edges: Dict[str, Dict[str, str]], path: Optional[Union[bool, str, pathlib.Path]],
             controls: Union[bool, List[str]], show: bool):
    return plotting.visualize_network(nodes, edges, path, controls, show)


def spec_net(nodes: Dict[str, Dict[str, str]], edges: Dict[str, Dict[str, str]], path: Optional[Union[bool, str, pathlib.Path]],
             controls: Union[bool, List[str]], show: bool):
    from pyvis.network import Network
    import webbrowser
    net = Network(directed=True, height='100%' if controls is False else '800px', font_color='white')
    for key, node in nodes.items():
        net.add_node(key, label=node['label'], shape={'Bus': 'circle', 'Component': 'box'}[node['class']],
                     color={'Bus': '#393E46', 'Component': '#00ADB5'}[node['class']], title=node['infos'].replace(')', '\n)'),
                     font={'size': 14})
    for edge in edges.values():
        net.add_edge(edge['start'], edge['end'], label=edge['label'], title=edge['infos'].replace(')', '\n)'),
                     font={'color': '#4D4D4D', 'size': 14}, color='#222831')
    if controls:
        net.show_buttons(filter_=controls)
    if path or show:
        file = pathlib.Path('network.html') if not path else pathlib.Path(path) if isinstance(path, str) else path
        net.write_html(file.as_posix())
        if show:
            webbrowser.open(f'file://{file.resolve()}', 2)
    return net


def impl_aggregated(a: Aggregation, colors: str, show: bool):
    ASSUME(isinstance(a.original_data, pd.DataFrame))
    ASSUME(isinstance(a.aggregated_data, pd.DataFrame))
    return a.plot(colors, show)


def spec_aggregated(a: Aggregation, colors: str, show: bool):
    ASSUME(isinstance(a.original_data, pd.DataFrame))
    ASSUME(isinstance(a.aggregated_data, pd.DataFrame))
    first = a.original_data.copy().rename(columns={c: f'Original - {c}' for c in a.original_data.columns})
    second = a.aggregated_data.copy().rename(columns={c: f'Aggregated - {c}' for c in a.aggregated_data.columns})
    fig = plotting.with_plotly(first, 'line', colors=colors)
    for trace in fig.data:
        trace.update(dict(line=dict(dash='dash')))
    return plotting.with_plotly(second, 'line', colors=colors, show=show, fig=fig)
