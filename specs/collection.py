"""The collection of effects and the values given to them"""
from typing import Any, Dict, Optional
from flixOpt.core import TimeSeries
from flixOpt.effects import (Effect, EffectCollection, EffectValues, as_effect_dict, effect_values_to_time_series)
from flixOpt.structure import Element, _create_time_series

RAW = dict(raw=True)

OBLIGATIONS = [
    dict(property='C16', name='at most one standard and one objective effect', impl='impl_add', spec='spec_add',
         anchor='EffectCollection.add_effect', observe=['effects', 'rejects'], effects=['setitem']),
    dict(property='C16', name='the standard effect', impl='impl_standard', spec='spec_standard',
         anchor='EffectCollection.standard_effect', effects=[], may_fail=False),
    dict(property='C16', name='the objective effect', impl='impl_objective', spec='spec_objective',
         anchor='EffectCollection.objective_effect', effects=[], may_fail=False),
    dict(property='C16', name='values of effects', impl='impl_dict', spec='spec_dict', anchor='as_effect_dict',
         effects=[], may_fail=False),
    dict(property='C16', name='time series of effects', impl='impl_series', spec='spec_series',
         anchor='effect_values_to_time_series', opaque=['_create_time_series'], effects=['setitem'], may_fail=False),
    dict(property='C39', name='effect dictionaries are left alone', impl='impl_series', spec='spec_series',
         anchor='effect_values_to_time_series', opaque=['_create_time_series'], observe=['effects'],
         ignore=['call:_create_time_series']),
]


def impl_add(c: EffectCollection, e: Effect):
    c.add_effect(e)


def spec_add(c: EffectCollection, e: Effect):
    others = c.effects.values()
    if e.is_standard and any(x.is_standard for x in others):
        raise Exception('second standard effect')
    if e.is_objective and any(x.is_objective for x in others):
        raise Exception('second objective')
    if e in others or e.label in c.effects:
        raise Exception('known effect')
    c.effects[e.label] = e


def impl_standard(c: EffectCollection):
    return c.standard_effect


def spec_standard(c: EffectCollection):
    return next((x for x in c.effects.values() if x.is_standard), None)


def impl_objective(c: EffectCollection):
    return c.objective_effect


def spec_objective(c: EffectCollection):
    return next((x for x in c.effects.values() if x.is_objective), None)


def impl_dict(values):
    return as_effect_dict(values)


def spec_dict(values):
    if values is None or isinstance(values, dict):
        return values
    return {None: values}


def impl_series(suffix: str, values, parent: Element):
    return effect_values_to_time_series(suffix, values, parent)


def spec_series(suffix: str, values, parent: Element):
    if values is None:
        return None
    if not isinstance(values, dict):
        return {None: _create_time_series('Standard_Effect_' + suffix, values, parent)}
    result = {}
    for effect, value in values.items():
        if effect is not None:
            result[effect] = _create_time_series(effect.label + '_' + suffix, value, parent)
    if values.get(None) is not None:
        result[None] = _create_time_series('Standard_Effect_' + suffix, values.get(None), parent)
    return result
