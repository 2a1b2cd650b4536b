"""Configuration and logging"""
from typing import Any, Dict, List, Literal, Optional, Union
import logging
import os
import yaml
from rich.console import Console
from rich.logging import RichHandler
Scalar = float
from flixOpt.config import (CONFIG, ColoredMultilineFormater, ConfigSchema, LoggingConfig, ModelingConfig, MultilineFormater,
                            _get_logging_handler, change_logging_level, dataclass_from_dict_with_validation,
                            get_logging_level_by_name, merge_configs, setup_logging)

logger = logging.getLogger('flixOpt')

OBLIGATIONS = [
    dict(property='C38', name='merged configurations', impl='impl_merge', spec='spec_merge', raw=True, recurse=4,
         anchor='merge_configs', effects=[], may_fail=False),
    dict(property='C38', name='many entries', impl='impl_merge_many', spec='spec_merge_many', raw=True, recurse=4,
         anchor='merge_configs', effects=[], may_fail=False),
    dict(property='C38', name='entries not mentioned', impl='impl_merge_any', spec='spec_merge_any', raw=True, recurse=3,
         anchor='merge_configs', effects=[]),
    dict(property='C38', name='sections replaced as a whole', impl='impl_merge_replace', spec='spec_merge_replace', raw=True,
         recurse=3, anchor='merge_configs', effects=[]),
    dict(property='C38', name='loading', impl='impl_load', spec='spec_load', raw=True, ordered=True,
         anchor='CONFIG.load_config', effects=['setattr.*', 'setup_logging', 'merge_configs'], observe=['effects', 'rejects'],
         opaque=['dataclass_from_dict_with_validation', 'setup_logging', 'merge_configs']),
    dict(property='C38', name='schema', impl='impl_schema', spec='spec_schema', raw=True, recurse=3,
         anchor='dataclass_from_dict_with_validation', effects=[], observe=['return', 'rejects']),
    dict(property='C38', name='logging', impl='impl_logging', spec='spec_logging', raw=True,
         anchor='setup_logging', effects=['setLevel', 'addHandler', 'clear'], observe=['effects', 'rejects']),
    dict(property='C38', name='old handlers leave first', impl='impl_logging', spec='spec_logging', raw=True, ordered=True,
         anchor='setup_logging', effects=['addHandler', 'clear'], observe=['effects'], commute=[('addHandler', 'addHandler')]),
    dict(property='C38', name='handlers', impl='impl_handler', spec='spec_handler', raw=True,
         anchor='_get_logging_handler', effects=['setFormatter'], may_fail=False),
    dict(property='C38', name='level', impl='impl_level', spec='spec_level', raw=True,
         anchor='change_logging_level', effects=['setLevel'], observe=['effects', 'rejects']),
]


def impl_merge(a: Scalar, b: str, c: Scalar, d: str, e: Scalar):
    return merge_configs({'x': a, 'm': {'p': b, 'q': c, 'deep': {'u': b, 'v': c}}, 's': {'t': a}},
                         {'m': {'q': d, 'deep': {'v': e}}, 'n': e})


def spec_merge(a: Scalar, b: str, c: Scalar, d: str, e: Scalar):
    return {'x': a, 'm': {'p': b, 'q': d, 'deep': {'u': b, 'v': e}}, 's': {'t': a}, 'n': e}


def impl_merge_many(a: Scalar, b: Scalar):
    old = {'k0': a, 'k1': a, 'k2': {f'i{k}': a for k in range(8)}, 'k3': a, 'k4': a, 'k5': a, 'k6': a, 'k7': {'x': {'y': a, 'z': a}}}
    return merge_configs(old, {'k0': b, 'k1': b, 'k2': {f'i{k}': b for k in range(7)}, 'k3': b, 'k4': b, 'k5': b, 'k7': {'x': {'z': b}}, 'k8': b})


def spec_merge_many(a: Scalar, b: Scalar):
    return {'k0': b, 'k1': b, 'k2': {**{f'i{k}': b for k in range(7)}, 'i7': a}, 'k3': b, 'k4': b, 'k5': b, 'k6': a,
            'k7': {'x': {'y': a, 'z': b}}, 'k8': b}


def impl_merge_any(x: dict, v: str, w: Scalar):
    return merge_configs({'x': x, 'y': v, 'z': w}, {'y': w})


def spec_merge_any(x: dict, v: str, w: Scalar):
    return {'x': x, 'y': w, 'z': w}


def impl_merge_replace(x: dict, v: str, w: dict):
    return merge_configs({'x': x, 'y': v, 'z': {'a': v}}, {'y': w, 'z': v})


def spec_merge_replace(x: dict, v: str, w: dict):
    return {'x': x, 'y': w, 'z': v}


def impl_load(file: Optional[str]):
    CONFIG.load_config(file)


def spec_load(file: Optional[str]):
    with open(os.path.join(os.path.dirname(__file__), 'config.yaml'), 'r') as f:
        settings = yaml.safe_load(f)
    if file is not None:
        if not os.path.exists(file):
            raise FileNotFoundError('no such file')
        with open(file, 'r') as f:
            settings = merge_configs(settings, yaml.safe_load(f) or {})
    x = dataclass_from_dict_with_validation(ConfigSchema, settings)
    CONFIG.logging, CONFIG.modeling, CONFIG.config_name = x.logging, x.modeling, x.config_name
    setup_logging(default_level=CONFIG.logging.level, log_file=CONFIG.logging.file, use_rich_handler=CONFIG.logging.rich)


def impl_schema(name: str, level, file: str, rich, big, eps, bound):
    x = dataclass_from_dict_with_validation(ConfigSchema, {
        'config_name': name,
        'logging': {'level': level, 'file': file, 'rich': rich},
        'modeling': {'BIG': big, 'EPSILON': eps, 'BIG_BINARY_BOUND': bound}})
    return (x.config_name, x.logging.level, x.logging.file, x.logging.rich,
            x.modeling.BIG, x.modeling.EPSILON, x.modeling.BIG_BINARY_BOUND)


def spec_schema(name: str, level, file: str, rich, big, eps, bound):
    if level not in ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']:
        raise AssertionError('level')
    if not isinstance(rich, bool) or not isinstance(big, int) or not isinstance(eps, float) or not isinstance(bound, int):
        raise AssertionError('type')
    return name, level, file, rich, big, eps, bound


def impl_logging(level: str, file: Optional[str], rich: bool):
    setup_logging(level, file, rich)


def spec_logging(level: str, file: Optional[str], rich: bool):
    log = logging.getLogger('flixOpt')
    log.setLevel(get_logging_level_by_name(level))
    if log.hasHandlers():
        log.handlers.clear()
    log.addHandler(_get_logging_handler(None, rich))
    if file is not None:
        log.addHandler(_get_logging_handler(file, False))


def impl_handler(file: Optional[str], rich: bool):
    return _get_logging_handler(file, rich)


def spec_handler(file: Optional[str], rich: bool):
    if file is not None:
        handler = logging.FileHandler(file)
        handler.setFormatter(MultilineFormater(fmt='%(message)s', datefmt='%Y-%m-%d %H:%M:%S'))
    elif rich:
        handler = RichHandler(console=Console(width=120), rich_tracebacks=True, omit_repeated_times=True,
                              show_path=False, log_time_format='%Y-%m-%d %H:%M:%S')
        handler.setFormatter(logging.Formatter('%(message)s'))
    else:
        handler = logging.StreamHandler()
        handler.setFormatter(ColoredMultilineFormater(fmt='%(message)s', datefmt='%Y-%m-%d %H:%M:%S'))
    return handler


def impl_level(level: str):
    change_logging_level(level)


def spec_level(level: str):
    if level.upper() not in ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']:
        raise ValueError('unknown level')
    value = getattr(logging, level.upper(), logging.WARNING)
    log = logging.getLogger('flixOpt')
    log.setLevel(value)
    for handler in log.handlers:
        handler.setLevel(value)
