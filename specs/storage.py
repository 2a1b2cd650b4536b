"""Storages: charge state, losses, start and end, capacity"""
from flixOpt.components import Storage
from flixOpt.config import CONFIG
from flixOpt.interface import InvestParameters
from flixOpt.structure import SystemModel
import numpy as np
from flixOpt import utils
from specs.flow import investment


OBLIGATIONS = [
    dict(property='C04', name='charge state of a storage', also=['C42'], impl='impl_storage', spec='spec_storage',
         anchor='StorageModel.do_modeling',
         opaque=['Flow.label_full', 'FlowModel.do_modeling', 'EffectCollectionModel.add_share_to_invest',
                 'SegmentedSharesModel.do_modeling', 'PreventSimultaneousUsageModel'],
         effects=[], not_about=['Investment_size"\\)$', 'Investment_isInvested"\\)$']),
    dict(property='C04', name='initial charge states', impl='impl_initial', spec='spec_initial', anchor='StorageModel.do_modeling',
         opaque=['Flow.label_full', '=ComponentModel.do_modeling', 'InvestmentModel.do_modeling', 'is_number', 'create_equation',
                 'create_variable', '_Constraint.add_summand', '_Constraint.add_constant'], effects=[],
         observe=['rejects'], raw=True),
    dict(property='C04', name='numbers and words', impl='impl_is_number', spec='spec_is_number', anchor='is_number', effects=[], raw=True,
         may_fail=False),
    dict(property='C08', name='investment of a storage', also=['C42'], impl='impl_storage', spec='spec_storage',
         anchor='InvestmentModel.do_modeling',
         opaque=['Flow.label_full', 'FlowModel.do_modeling', 'EffectCollectionModel.add_share_to_invest',
                 'SegmentedSharesModel.do_modeling', 'PreventSimultaneousUsageModel'],
         effects=['.*add_share_to_invest', 'SegmentedSharesModel.*'], about=['Investment_']),
]


def impl_is_number(number: float, label: str):
    ASSUME(isinstance(number, (int, float)))
    return [utils.is_number(x) for x in (number, 0, 2.5, '2.5', 'lastValueOfSim', 'half')]


def spec_is_number(number: float, label: str):
    ASSUME(isinstance(number, (int, float)))
    return [True, True, True, True, False, False]


def impl_storage(storage: Storage, system_model: SystemModel):
    ASSUME(storage.on_off_parameters is None)
    m = storage.create_model()
    m.do_modeling(system_model)
    return {'charge_state': m.charge_state, 'netto_discharge': m.netto_discharge}


def spec_storage(storage: Storage, system_model: SystemModel):
    ASSUME(storage.on_off_parameters is None)
    n = system_model.nr_of_time_steps
    dt = system_model.dt_in_hours
    capacity = storage.capacity_in_flow_hours
    rel_min = storage.relative_minimum_charge_state.active_data
    rel_max = storage.relative_maximum_charge_state.active_data
    charging = storage.charging.model.flow_rate
    discharging = storage.discharging.model.flow_rate

    if isinstance(capacity, InvestParameters):
        lower = 0 if capacity.optional else rel_min * capacity.minimum_size
        upper = rel_max * capacity.maximum_size
    else:
        lower = rel_min * capacity
        upper = rel_max * capacity
    state = VAR(storage.label_full + '_charge_state', n + 1, lower=lower, upper=upper)
    netto = VAR(storage.label_full + '_netto_discharge', n, lower=-np.inf)
    r = EQ()
    TERM(r, 1, netto)
    TERM(r, 1, charging)
    TERM(r, -1, discharging)

    r = EQ()
    TERM(r, 1, state, range(1, n + 1))
    TERM(r, storage.relative_loss_per_hour.active_data * dt - 1, state, range(0, n))
    TERM(r, -storage.eta_charge.active_data * dt, charging)
    TERM(r, dt / storage.eta_discharge.active_data, discharging)

    if isinstance(capacity, InvestParameters):
        investment(storage, capacity, state, rel_min, rel_max, False, None, system_model)

    first = storage.initial_charge_state
    if first is not None:
        r = EQ()
        TERM(r, 1, state, 0)
        if utils.is_number(first):
            RHS(r, first)
        elif first == 'lastValueOfSim':
            TERM(r, -1, state, n)
        else:
            raise Exception('undefined')
    if storage.maximal_final_charge_state is not None:
        r = LE()
        TERM(r, 1, state, n)
        RHS(r, storage.maximal_final_charge_state)
    if storage.minimal_final_charge_state is not None:
        r = LE()
        TERM(r, -1, state, n)
        RHS(r, -storage.minimal_final_charge_state)
    return {'charge_state': state, 'netto_discharge': netto}


def impl_initial(storage: Storage, system_model: SystemModel):
    ASSUME(not isinstance(storage.capacity_in_flow_hours, InvestParameters))
    storage.create_model().do_modeling(system_model)


def spec_initial(storage: Storage, system_model: SystemModel):
    ASSUME(not isinstance(storage.capacity_in_flow_hours, InvestParameters))
    first = storage.initial_charge_state
    if first is not None and not utils.is_number(first) and first != 'lastValueOfSim':
        raise Exception('undefined')
