"""Flows: rates, totals, investment, on/off, durations, switching"""
from flixOpt.config import CONFIG
from flixOpt.elements import Flow
from flixOpt.structure import SystemModel
from flixOpt.interface import InvestParameters
from flixOpt.features import OnOffModel, SegmentedSharesModel
import numpy as np


OBLIGATIONS = [
    dict(property='C02', name='bounds of the flow rate', also=['C42'], impl='impl_flow', spec='spec_flow', anchor='FlowModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=[],
         about=['_flow_rate"'], may_fail=False),
    dict(property='C03', name='totals of a flow', also=['C42'], impl='impl_flow', spec='spec_flow', anchor='FlowModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=[],
         about=['sumFlowHours']),
    dict(property='C08', name='investment of a flow', also=['C42'], impl='impl_flow', spec='spec_flow', anchor='InvestmentModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=['.*add_share_to_invest', 'SegmentedSharesModel.*'],
         about=['Investment_']),
    dict(property='C09', name='on and off states of a flow', impl='impl_flow', spec='spec_flow', anchor='OnOffModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=[],
         about=['OnOff_on"', 'OnOff_off"', 'totalOnHours'], not_about=['[sS]witch'],
         observe=['rows', 'vars', 'previous']),
    dict(property='C10', name='durations of the states of a flow', also=['C42'], impl='impl_flow', spec='spec_flow', anchor='OnOffModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=[],
         about=['consecutive', '^var\\([^ ]*OnOff_(on|off)"\\)$'],
         observe=['rows', 'vars', 'previous']),
    dict(property='C11', name='starts and stops of a flow', also=['C42'], impl='impl_flow', spec='spec_flow_with_starts', anchor='OnOffModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=[],
         about=['[sS]witch']),
    dict(property='C15', name='values per hour of a flow', impl='impl_flow', spec='spec_flow', anchor='FlowModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=['.*add_share_to_operation'],
         about=['^$'], effects_about=['per_flow_hour', 'per_running_hour']),
    dict(property='C11', name='effects of starts of a flow', impl='impl_flow', spec='spec_flow_with_starts', anchor='OnOffModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
                 'OnOffModel.get_consecutive_duration', 'SegmentedSharesModel.do_modeling'],
         pure=['OnOffModel.get_consecutive_duration'], effects=['.*add_share_to_operation'],
         about=['^$'], effects_about=['per_switch_on']),
]


def impl_flow(flow: Flow, system_model: SystemModel):
    m = flow.create_model()
    m.do_modeling(system_model)
    return {'flow_rate': m.flow_rate, 'sum_flow_hours': m.sum_flow_hours}


def spec_flow(flow: Flow, system_model: SystemModel):
    n = system_model.nr_of_time_steps
    dt = system_model.dt_in_hours
    total = system_model.dt_in_hours_total
    effects = system_model.effect_collection_model
    onoff = flow.on_off_parameters
    size = flow.size
    invest = isinstance(size, InvestParameters)

    # bounds relative to the size; a given profile replaces both
    if flow.fixed_relative_profile is not None:
        rel_min = flow.fixed_relative_profile.active_data
        rel_max = flow.fixed_relative_profile.active_data
    else:
        rel_min = flow.relative_minimum.active_data
        rel_max = flow.relative_maximum.active_data
    if invest:
        smallest = size.minimum_size
        largest = size.maximum_size
    else:
        smallest = size
        largest = size
    lower = rel_min * smallest
    upper = rel_max * largest
    if invest:
        if size.fixed_size is not None:
            lower = rel_min * size.fixed_size
            upper = rel_max * size.fixed_size

    can_be_zero = onoff is not None or (invest and size.optional)
    rate = VAR(flow.label_full + '_flow_rate', n, lower=0 if can_be_zero else lower,
               upper=None if onoff is not None else upper, previous=flow.previous_flow_rate)

    on = None
    if onoff is not None:
        on = on_off(flow.label_full, flow, onoff, [(rate, np.maximum(lower, CONFIG.modeling.EPSILON), upper)],
                    system_model)

    size_var = None
    if invest:
        size_var = investment(flow, size, rate, rel_min, rel_max, flow.fixed_relative_profile is not None, on,
                              system_model)

    flow_hours = VAR(flow.label_full + '_sumFlowHours', 1, lower=flow.flow_hours_total_min,
                     upper=flow.flow_hours_total_max)
    r = EQ()
    TERM(r, dt, rate, as_sum=True)
    TERM(r, -1, flow_hours)

    if flow.load_factor_max is not None:
        r = LE()
        TERM(r, 1, flow_hours)
        if invest:
            TERM(r, -total * flow.load_factor_max, size_var)
        else:
            RHS(r, total * flow.load_factor_max * size)
    if flow.load_factor_min is not None:
        r = LE()
        TERM(r, -1, flow_hours)
        if invest:
            TERM(r, total * flow.load_factor_min, size_var)
        else:
            RHS(r, -(total * flow.load_factor_min * size))

    if flow.effects_per_flow_hour != {}:
        effects.add_share_to_operation('effects_per_flow_hour', flow, flow.effects_per_flow_hour, dt, rate)
    return {'flow_rate': rate, 'sum_flow_hours': flow_hours}


def spec_flow_with_starts(flow: Flow, system_model: SystemModel):
    p = flow.on_off_parameters
    ASSUME(p is None or p.effects_per_switch_on is not None)
    ASSUME(p is None or p.effects_per_switch_on != {} or p.switch_on_total_max is not None or p.force_switch_on)
    return spec_flow(flow, system_model)


def investment(element, p, rate, rel_min, rel_max, profile_given, on, system_model):
    effects = system_model.effect_collection_model
    label = element.label_full + '__Investment'
    smallest = p.minimum_size
    largest = p.maximum_size
    invested = None
    if p.fixed_size is not None and not p.optional:
        size = VAR(label + '_size', 1, fixed=p.fixed_size)
    else:
        size = VAR(label + '_size', 1, lower=0 if p.optional else smallest, upper=largest)
    if p.optional:
        invested = VAR(label + '_isInvested', 1, binary=True)
        if p.fixed_size is not None:
            r = EQ()
            TERM(r, -1, size)
            TERM(r, p.fixed_size, invested)
        else:
            r = LE()
            TERM(r, 1, size)
            TERM(r, -largest, invested)
            r = LE()
            TERM(r, -1, size)
            TERM(r, np.maximum(CONFIG.modeling.EPSILON, smallest), invested)

    if profile_given:
        r = EQ()
        TERM(r, 1, rate)
        TERM(r, -rel_max, size)
    else:
        r = LE()
        TERM(r, 1, rate)
        TERM(r, -rel_max, size)
        r = LE()
        TERM(r, -1, rate)
        TERM(r, rel_min, size)
        if on is not None:
            big = rel_max * largest
            TERM(r, big, on)
            RHS(r, big)

    if p.fix_effects != {}:
        effects.add_share_to_invest('fix_effects', element, p.fix_effects, 1, invested)
    if p.divest_effects != {} and p.optional:
        effects.add_share_to_invest('divest_effects', element, p.divest_effects, 1, None)
        effects.add_share_to_invest('divest_cancellation_effects', element, p.divest_effects, -1, invested)
    if p.specific_effects != {}:
        effects.add_share_to_invest('specific_effects', element, p.specific_effects, 1, size)
    if p.effects_in_segments:
        CALL('SegmentedSharesModel.do_modeling',
             SegmentedSharesModel(element, (size, p.effects_in_segments[0]), p.effects_in_segments[1], invested),
             system_model)
    return size


def on_off(label, element, p, variables, system_model):
    n = system_model.nr_of_time_steps
    dt = system_model.dt_in_hours
    effects = system_model.effect_collection_model
    eps = CONFIG.modeling.EPSILON
    label = label + '__OnOff'

    was_on = previous_states([v.previous_values for v, lb, ub in variables])
    on = VAR(label + '_on', n, binary=True, previous=was_on)
    hours = VAR(label + '_totalOnHours', 1, lower=p.on_hours_total_min, upper=p.on_hours_total_max)
    r = EQ()
    TERM(r, dt, on, as_sum=True)
    TERM(r, -1, hours)

    r = LE()
    rate, lower, upper = variables[0]
    TERM(r, -1, rate)
    TERM(r, np.maximum(eps, lower), on)
    r = LE()
    TERM(r, 1, rate)
    TERM(r, -upper, on)

    off_limited = p.consecutive_off_hours_min is not None or p.consecutive_off_hours_max is not None
    if off_limited:
        off = VAR(label + '_off', n, binary=True, previous=1 - was_on)
        r = EQ()
        TERM(r, 1, on)
        TERM(r, 1, off)
        RHS(r, 1)
    if p.consecutive_on_hours_min is not None or p.consecutive_on_hours_max is not None:
        duration(label + '_consecutiveOnHours', on, was_on, p.consecutive_on_hours_min, p.consecutive_on_hours_max,
                 system_model)
    if off_limited:
        duration(label + '_consecutiveOffHours', off, 1 - was_on, p.consecutive_off_hours_min,
                 p.consecutive_off_hours_max, system_model)

    start = VAR(label + '_switchOn', n, binary=True)
    stop = VAR(label + '_switchOff', n, binary=True)
    starts = VAR(label + '_nrSwitchOn', 1, upper=p.switch_on_total_max)
    ts = system_model.indices
    r = EQ()
    TERM(r, 1, start, ts[1:])
    TERM(r, -1, stop, ts[1:])
    TERM(r, -1, on, ts[1:])
    TERM(r, 1, on, ts[0:-1])
    r = EQ()
    TERM(r, 1, start, 0)
    TERM(r, -1, stop, 0)
    TERM(r, -1, on, 0)
    RHS(r, -was_on[-1])
    r = LE()
    TERM(r, 1, start)
    TERM(r, 1, stop)
    RHS(r, 1.1)
    r = EQ()
    TERM(r, 1, starts)
    TERM(r, -1, start, as_sum=True)

    if p.effects_per_switch_on != {}:
        effects.add_share_to_operation('switch_on_effects', element, p.effects_per_switch_on, 1, start)
    if p.effects_per_running_hour != {}:
        effects.add_share_to_operation('running_hour_effects', element, p.effects_per_running_hour, dt, on)
    return on


def previous_states(histories):
    known = [h for h in histories if h is not None]
    if not known:
        return np.array([0])
    known = np.array([np.atleast_1d(h) for h in known])
    return np.any(~np.isclose(known, 0, atol=CONFIG.modeling.EPSILON), axis=0).astype(int)


def duration(label, state, was, shortest, longest, system_model):
    n = system_model.nr_of_time_steps
    dt = system_model.dt_in_hours
    ts = system_model.indices
    before = OPAQUE('OnOffModel.get_consecutive_duration', OnOffModel, was, system_model.previous_dt_in_hours)
    big = system_model.dt_in_hours_total + before
    d = VAR(label, n, lower=0, upper=longest.active_data if longest is not None else big, previous=before)
    r = LE()
    TERM(r, 1, d)
    TERM(r, -big, state)
    r = LE()
    TERM(r, 1, d, ts[1:])
    TERM(r, -1, d, ts[0:-1])
    RHS(r, dt[1:])
    r = LE()
    TERM(r, -1, d, ts[1:])
    TERM(r, 1, d, ts[0:-1])
    TERM(r, big, state, ts[1:])
    RHS(r, big - dt[1:])
    if shortest is not None:
        data = shortest.active_data
        inner = data if shortest.is_scalar else data[0:-1]
        r = LE()
        TERM(r, -1, d, ts[0:-1])
        TERM(r, inner, state, ts[0:-1])
        TERM(r, -inner, state, ts[1:])
        first = data[0] if shortest.is_array else data
        if 0 < before and before < first:
            r = EQ()
            TERM(r, 1, state, 0)
            RHS(r, 1)
    r = EQ()
    TERM(r, 1, d, 0)
    TERM(r, -(dt[0] + before), state, 0)
