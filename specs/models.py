"""Nested models: everything that an element's model creates can be reached from it, once"""
from typing import Dict, List, Optional, Tuple
from flixOpt.components import LinearConverter, Sink, Source, SourceAndSink, Storage, Transmission
from flixOpt.effects import Effect, EffectCollection, EffectCollectionModel
from flixOpt.elements import Bus, ComponentModel, Flow
from flixOpt.features import (InvestmentModel, MultipleSegmentsModel, OnOffModel, PreventSimultaneousUsageModel, SegmentedSharesModel,
                              SegmentModel, ShareAllocationModel, SingleShareModel)
from flixOpt.interface import InvestParameters, OnOffParameters
from flixOpt.math_modeling import Variable, VariableTS
from flixOpt.structure import Element, ElementModel, SystemModel
import numpy as np

SHARES = ['EffectCollectionModel.add_share_to_operation', 'EffectCollectionModel.add_share_to_invest',
          'EffectCollectionModel.add_share_to_penalty']
TREE = dict(property='C22', observe=["return"], effects=[])
# what a component of a kind of its own adds to what every component does, which is done exactly once
NEST = dict(property='C22', observe=["return", "effects"], effects=['ComponentModel.do_modeling'], may_fail=True)

OBLIGATIONS = [
    dict(name='models of a flow', impl='impl_flow', spec='spec_flow', anchor='FlowModel.do_modeling', **TREE,
         may_fail=True, pure=['OnOffModel._get_duration_in_hours'],
         opaque=SHARES + ['Flow.label_full', 'SegmentedSharesModel.do_modeling', 'OnOffModel._get_duration_in_hours']),
    dict(name='models of a storage', impl='impl_storage', spec='spec_storage', anchor='StorageModel.do_modeling', **NEST,
         opaque=SHARES + ['Flow.label_full', '=ComponentModel.do_modeling', 'InvestmentModel.do_modeling']),
    dict(name='models of a converter', impl='impl_converter', spec='spec_converter', anchor='LinearConverterModel.do_modeling', **NEST,
         opaque=SHARES + ['Flow.label_full', '=ComponentModel.do_modeling', 'MultipleSegmentsModel.do_modeling']),
    dict(name='models of a source', impl='impl_source', spec='spec_source', anchor='ComponentModel.do_modeling', **TREE,
         may_fail=True, opaque=SHARES + ['Flow.label_full', 'Flow.create_model', 'FlowModel.do_modeling', 'OnOffModel.do_modeling',
                                         'PreventSimultaneousUsageModel.do_modeling']),
    dict(name='models of a transmission', impl='impl_transmission', spec='spec_transmission', anchor='TransmissionModel.do_modeling', **NEST,
         opaque=SHARES + ['Flow.label_full', '=ComponentModel.do_modeling']),
    dict(name='models of elements', impl='impl_own', spec='spec_own', anchor='Element.create_model', **TREE),
    dict(name='models of segments', impl='impl_segments', spec='spec_segments', anchor='MultipleSegmentsModel.do_modeling', **TREE,
         may_fail=True),
    dict(name='models of segmented shares', impl='impl_segmented', spec='spec_segmented', anchor='SegmentedSharesModel.do_modeling',
         **TREE, may_fail=True, opaque=SHARES),
    dict(name='models of shares', impl='impl_shares', spec='spec_shares', anchor='ShareAllocationModel.add_share', **TREE,
         may_fail=True),
]


def impl_flow(flow: Flow, system_model: SystemModel):
    m = flow.create_model()
    m.do_modeling(system_model)
    return {'models': [x.label_full for x in m.all_sub_models], 'own': flow.model is m, 'element': m.element}


def spec_flow(flow: Flow, system_model: SystemModel):
    if isinstance(flow.size, InvestParameters) and flow.size.effects_in_segments:
        length = len(flow.size.effects_in_segments[0])
        for pairs in flow.size.effects_in_segments[1].values():
            ASSUME(len(pairs) == length)
    found = []
    if flow.on_off_parameters is not None:
        found.append(flow.label_full + '__OnOff')
    if isinstance(flow.size, InvestParameters):
        found.append(flow.label_full + '__Investment')
        if flow.size.effects_in_segments:
            found.append(flow.label_full + '__SegmentedShares')
    return {'models': found, 'own': True, 'element': flow}


def impl_storage(s: Storage, system_model: SystemModel):
    m = s.create_model()
    m.do_modeling(system_model)
    return {'models': [x.label_full for x in m.sub_models], 'own': s.model is m}


def spec_storage(s: Storage, system_model: SystemModel):
    ComponentModel.do_modeling(s.create_model(), system_model)
    found = []
    if isinstance(s.capacity_in_flow_hours, InvestParameters):
        found.append(s.label_full + '__Investment')
    return {'models': found, 'own': True}


def impl_converter(c: LinearConverter, system_model: SystemModel):
    m = c.create_model()
    m.do_modeling(system_model)
    return {'models': [x.label_full for x in m.sub_models], 'own': c.model is m}


def spec_converter(c: LinearConverter, system_model: SystemModel):
    ComponentModel.do_modeling(c.create_model(), system_model)
    found = []
    if not c.conversion_factors:
        found.append(c.label_full + '__MultipleSegments')
    return {'models': found, 'own': True}


def impl_source(c: Source, system_model: SystemModel):
    m = c.create_model()
    m.do_modeling(system_model)
    return {'models': [x.label_full for x in m.sub_models], 'own': c.model is m}


def spec_source(c: Source, system_model: SystemModel):
    found = [f.create_model().label_full for f in c.inputs + c.outputs]
    if c.on_off_parameters:
        found.append(c.label_full + '__OnOff')
    if c.prevent_simultaneous_flows:
        found.append(c.label_full + '__PreventSimultaneousUsage')
    return {'models': found, 'own': True}


def impl_transmission(t: Transmission, system_model: SystemModel):
    m = t.create_model()
    m.do_modeling(system_model)
    return {'models': [x.label_full for x in m.sub_models], 'own': t.model is m}


def spec_transmission(t: Transmission, system_model: SystemModel):
    ComponentModel.do_modeling(t.create_model(), system_model)
    return {'models': [], 'own': True}


def impl_segments(e: Element, v: VariableTS, a: float, b: float, c: float, d: float, outside: Optional[VariableTS], s: SystemModel):
    m = MultipleSegmentsModel(e, {v: [(a, b), (c, d)]}, outside)
    m.do_modeling(s)
    return [x.label_full for x in m.all_sub_models], m.element


def spec_segments(e: Element, v: VariableTS, a: float, b: float, c: float, d: float, outside: Optional[VariableTS], s: SystemModel):
    return [e.label_full + '__Segment_0', e.label_full + '__Segment_1'], e


def impl_segmented(e: Element, v: Variable, x: Effect, a: float, b: float, c: float, d: float, s: SystemModel):
    ASSUME(not isinstance(v, VariableTS))
    m = SegmentedSharesModel(e, (v, [(a, b)]), {x: [(c, d)]}, None)
    m.do_modeling(s)
    return [y.label_full for y in m.all_sub_models], m.element


def spec_segmented(e: Element, v: Variable, x: Effect, a: float, b: float, c: float, d: float, s: SystemModel):
    ASSUME(not isinstance(v, VariableTS))
    return [e.label_full + '__MultipleSegments', e.label_full + '__Segment_0'], e


def impl_shares(e: Element, s: SystemModel, a: str, b: str, v: VariableTS, w: VariableTS):
    ASSUME(a)
    ASSUME(b)
    ASSUME(a != b)
    m = ShareAllocationModel(e, 'x', True)
    m.do_modeling(s)
    m.add_share(s, a, v, 1)
    m.add_share(s, b, w, 2, True)
    return [x.label_full for x in m.all_sub_models], m.shares[a].label, m.shares[b].label, len(m.shares), m.element


def spec_shares(e: Element, s: SystemModel, a: str, b: str, v: VariableTS, w: VariableTS):
    ASSUME(a)
    ASSUME(b)
    ASSUME(a != b)
    first = e.label_full + '__' + a
    second = e.label_full + '__' + b
    return [first, second], first, second, 2, e


def impl_own(b: Bus, e: Effect, f: Flow):
    x, y, z = b.create_model(), e.create_model(), f.create_model()
    return b.model is x, e.model is y, f.model is z, x.element, y.element, z.element, x.label_full, y.label_full, z.label_full


def spec_own(b: Bus, e: Effect, f: Flow):
    return True, True, True, b, e, f, b.label_full, e.label_full, f.label_full
