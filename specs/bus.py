"""Bus balance"""
from flixOpt.elements import Bus, BusModel
from flixOpt.structure import SystemModel

OBLIGATIONS = [
    dict(property='C01', name='bus balance', also=['C42'], impl='impl_bus', spec='spec_bus', anchor='BusModel.do_modeling',
         opaque=['Flow.label_full', 'EffectCollectionModel.add_share_to_penalty']),
]


def impl_bus(bus: Bus, system_model: SystemModel):
    m = BusModel(bus)
    m.do_modeling(system_model)
    return {'excess_input': m.excess_input, 'excess_output': m.excess_output}


def spec_bus(bus: Bus, system_model: SystemModel):
    n = system_model.nr_of_time_steps
    balance = EQ()
    for flow in bus.inputs:
        TERM(balance, 1, flow.model.flow_rate)
    for flow in bus.outputs:
        TERM(balance, -1, flow.model.flow_rate)
    excess_in = None
    excess_out = None
    if bus.excess_penalty_per_flow_hour is not None:
        excess_in = VAR(bus.label_full + '_excess_input', n, lower=0)
        excess_out = VAR(bus.label_full + '_excess_output', n, lower=0)
        TERM(balance, 1, excess_in)
        TERM(balance, -1, excess_out)
        price = system_model.dt_in_hours * bus.excess_penalty_per_flow_hour.active_data
        effects = system_model.effect_collection_model
        effects.add_share_to_penalty(bus.label_full + '__excess_input', excess_in, price)
        effects.add_share_to_penalty(bus.label_full + '__excess_output', excess_out, price)
    return {'excess_input': excess_in, 'excess_output': excess_out}
