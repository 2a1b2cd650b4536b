"""writes /verif/properties.jsonl (one place to edit the properties)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['flixOpt/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'flixOpt/' + w} for n, w in mechanism],
                          'observe_at': list(observe), 'hook_needed': None}})


SAMPLE = ('The tests solve a handful of fixed systems and compare a few optimal values; a wrong coefficient that is '
          'not binding there, or an option they do not set, goes unnoticed. ')

prop('C01', 'Every bus balances in every time step',
     'In every time step the flow rates of all flows entering a bus equal the flow rates of all flows leaving it. '
     'With an excess penalty, and only then, non-negative excess input and output close the gap, and each is charged '
     'to the penalty with penalty per flow hour times the length of the time step.',
     ['inputs', 'configurations'], 'all buses, any number of flows, all penalties, all time grids',
     SAMPLE + 'No test has an unbalanced bus.', ['elements.py'],
     [('BusModel.do_modeling', 'elements.py')], ['equations of a bus', 'shares of the penalty'])
prop('C02', 'Flow rates stay within size-relative bounds',
     'A flow rate never leaves [relative minimum x size, relative maximum x size] in any time step; a fixed relative '
     'profile replaces both bounds by profile x size. The lower bound is relaxed to zero exactly when the flow may be '
     'switched off or its investment may be left out; with an investment the bounds follow the chosen size.',
     ['inputs', 'configurations'], 'all flows: constant or time-dependent bounds, fixed size or investment, on/off or not',
     SAMPLE + 'Bounds that are not active in the optimum are never observed.', ['elements.py', 'features.py'],
     [('FlowModel.do_modeling', 'elements.py'), ('InvestmentModel._create_bounds_for_defining_variable', 'features.py')],
     ['bounds and constraints of flow rates'])
prop('C03', 'Totals and load factors bound a flow over the whole horizon',
     'The total flow hours of a flow are the sum of flow rate times time step length and stay within the given total '
     'minimum and maximum. A load factor bounds the same total by load factor x total hours x (chosen) size.',
     ['inputs', 'configurations'], 'all flows, all time grids, fixed or optimised sizes, explicit zero limits included',
     SAMPLE + 'Load factors with non-uniform time steps and investments are not covered.', ['elements.py'],
     [('FlowModel._create_bounds_for_load_factor', 'elements.py'), ('FlowModel.do_modeling', 'elements.py')],
     ['constraints on sumFlowHours'])
prop('C04', 'A storage conserves its content from step to step',
     'The charge state after each step equals the charge state before it, reduced by the loss rate per hour over the '
     'step, plus charging x efficiency x step length, minus discharging / efficiency x step length. It stays within the '
     'relative bounds of the capacity at every point, starts at the given value (or equals the final one in cyclic '
     'operation, or is free) and ends within the given final limits.',
     ['inputs', 'configurations'], 'all storages, efficiencies, loss rates, time grids, capacities fixed or optimised, all initial/final settings',
     SAMPLE + 'The cyclic setting, final limits without an initial value and non-uniform steps were never solved.',
     ['components.py'], [('StorageModel.do_modeling', 'components.py')], ['equations of charge_state'])
prop('C05', 'Converters tie their flows by the given factors',
     'For every set of conversion factors of a converter the factor-weighted inputs equal the factor-weighted outputs '
     'in every time step. Boilers, power-to-heat, heat pumps, cooling towers and CHP units translate their '
     'efficiencies into exactly the documented energy relations.',
     ['inputs', 'configurations'], 'all converters, any number of flows and factor sets, constant or time-dependent factors',
     SAMPLE + 'Only single factors with scalar values are sampled.', ['components.py', 'linear_converters.py'],
     [('LinearConverterModel.do_modeling', 'components.py'), ('linear converters', 'linear_converters.py')],
     ['conversion equations'])
prop('C06', 'Piecewise-linear relations select exactly one segment',
     'A set of variables coupled by segments always lies on one common segment: each variable is the same convex '
     'combination of its start and end point of the one active segment. No segment is active exactly when being '
     'outside is allowed and chosen, and then all coupled variables are zero.',
     ['inputs', 'configurations'], 'any number of segments and variables, scalar or time-dependent sample points, investment or operation',
     SAMPLE + 'Two segment sets are solved; gaps and points are not.', ['features.py', 'components.py'],
     [('MultipleSegmentsModel.do_modeling', 'features.py'), ('SegmentModel.do_modeling', 'features.py'),
      ('SegmentedSharesModel.do_modeling', 'features.py')], ['segment equations'])
prop('C07', 'Transmissions lose what is specified in each direction',
     'In each direction the outflow equals inflow x (1 - relative loss) minus the absolute loss while the inflow is on. '
     'Both directions have the same size, and without explicit permission they are not used at the same time.',
     ['inputs', 'configurations'], 'all transmissions, one or two directions, fixed or optimised size, all combinations of losses',
     SAMPLE + 'Zero and time-dependent absolute losses and missing losses are not sampled.', ['components.py'],
     [('TransmissionModel.do_modeling', 'components.py')], ['transmission equations'])
prop('C08', 'Investment decisions bound size and carry their costs',
     'The chosen size lies within its minimum and maximum (or equals the fixed size) when invested and is zero when an '
     'optional investment is left out. Fixed effects are charged only if invested, divestment effects only if not, '
     'specific effects in proportion to the size, and segmented effects along the size.',
     ['inputs', 'configurations'], 'flows and storages; optional or not; fixed size or range; all kinds of effects',
     SAMPLE + 'Optional investments whose optimum is zero and divestment effects are not sampled.',
     ['features.py', 'interface.py'], [('InvestmentModel.do_modeling', 'features.py')],
     ['size, isInvested and investment shares'])
prop('C09', 'On/off states follow the flow rates',
     'The on state is 1 whenever a flow rate is above its minimum and 0 only when all rates are zero; while on, a single '
     'rate respects its bounds. Total on hours are the on states times the step lengths and stay within their limits, '
     'the off state is the complement, and effects per running hour are charged with them.',
     ['inputs', 'configurations'], 'flows and components, any number of flows per component, all bounds and limits',
     SAMPLE, ['features.py', 'elements.py'], [('OnOffModel.do_modeling', 'features.py'), ('ComponentModel.do_modeling', 'elements.py')],
     ['on/off equations'])
prop('C10', 'Consecutive on and off durations include the past',
     'The duration of a state counts the consecutive hours up to each step, continues the duration given by the previous '
     'values, never exceeds the maximum, and a state that began must last for the minimum before it ends. The duration '
     'before the first step is exactly the trailing run of active previous values, in hours.',
     ['inputs', 'histories'], 'all previous histories, scalar or time-dependent limits, non-uniform step lengths',
     SAMPLE + 'Only one history per limit is sampled.', ['features.py'],
     [('OnOffModel._get_duration_in_hours', 'features.py'), ('OnOffModel.get_consecutive_duration', 'features.py')],
     ['duration equations'])
prop('C11', 'Starts are counted and charged exactly once',
     'A start is marked exactly in the steps in which the state changes from off to on, seen from the previous values '
     'in the first step, a stop in the opposite change, never both in one step. The number of starts is their sum, '
     'respects its maximum, and effects per start are charged per marked start.',
     ['inputs', 'histories'], 'all flows and components with limits or effects on starts, all previous values',
     SAMPLE, ['features.py'], [('OnOffModel._add_switch_constraints', 'features.py')], ['switch equations'])
prop('C12', 'Flows declared exclusive are never used together',
     'Of the flows of a component that must not be used simultaneously at most one is on in any time step; this holds '
     'for storages, source-sinks, transmissions and user components that ask for it, and for no others.',
     ['inputs', 'configurations'], 'all components, any number of exclusive flows, with or without on/off parameters of their own',
     SAMPLE + 'In the solved systems simultaneous use would not pay off, so the rule is never binding.',
     ['elements.py', 'features.py', 'components.py'],
     [('ComponentModel.do_modeling', 'elements.py'), ('PreventSimultaneousUsageModel.do_modeling', 'features.py')],
     ['equation prevent_simultaneous_use'])
prop('C13', 'Effects account for every share exactly once',
     'The total of an effect is the sum of its operation and investment totals, each the sum of all shares assigned to '
     'it; operation shares enter per time step, investment shares once. Shares of one effect in another are added with '
     'the given factor, and the given limits per hour and in total are enforced on operation, investment and total.',
     ['inputs', 'configurations'], 'all effects, limits, cross-effect shares and shares of elements',
     SAMPLE + 'Limits on the sums and per-hour limits with other step lengths are not sampled.',
     ['effects.py', 'features.py'], [('EffectModel.do_modeling', 'effects.py'), ('ShareAllocationModel', 'features.py'),
                                     ('EffectCollectionModel', 'effects.py')], ['effect equations'])
prop('C14', 'The objective is the objective effect plus penalties',
     'The minimised value is the total of the objective effect plus the sum of all penalties, nothing else.',
     ['inputs', 'configurations'], 'all systems', SAMPLE, ['effects.py', 'structure.py'],
     [('EffectCollection.objective', 'effects.py'), ('SystemModel.do_modeling', 'structure.py')], ['objective'])
prop('C15', 'Values per hour scale with the length of each time step',
     'Effects per flow hour and per running hour are charged with rate (or state) times value times the length of the '
     'respective time step, for every time grid.',
     ['inputs'], 'all time grids, uniform or not; all effects', SAMPLE + 'All tests use uniform one-hour steps.',
     ['elements.py', 'features.py'], [('FlowModel._create_shares', 'elements.py'), ('OnOffModel._create_shares', 'features.py')],
     ['operation shares'])
prop('C16', 'Effect values reach the effect they name',
     'A plain number or series given as effects goes to the standard effect, a dictionary to the effects it names (None '
     'meaning the standard effect); at most one standard and one objective effect exist, and unknown or duplicate '
     'effects are rejected.',
     ['inputs', 'configurations'], 'all ways to give effects, all registration orders', SAMPLE, ['effects.py'],
     [('EffectCollection', 'effects.py'), ('effect_values_to_dict', 'effects.py')], ['effect values', 'exceptions'])
prop('C17', 'The solver sees exactly the formulated model',
     'Every variable reaches the solver with its bounds, type and fixed value, every equation and inequation with its '
     'coefficients, indices and right-hand side for every index, and the objective is minimised; nothing is dropped, '
     'repeated or shifted.',
     ['inputs', 'programs'], 'all models: all variables and constraints, scalar and indexed, sums over indices',
     SAMPLE + 'A shifted index or a dropped bound that does not bind is invisible.', ['math_modeling.py'],
     [('PyomoModel', 'math_modeling.py')], ['Pyomo model'])
prop('C18', 'A summand multiplies each index with its own factor',
     'A summand of a constraint is factor x variable at the given indices, paired in order; scalars are spread over all '
     'indices and a sum over the indices is a single scalar term of the same pairs.',
     ['inputs'], 'all factors, variables, index selections', SAMPLE, ['math_modeling.py'],
     [('Summand', 'math_modeling.py'), ('SumOfSummand', 'math_modeling.py')], ['summands'])
prop('C19', 'Mismatching lengths are rejected, never truncated',
     'Combining vectors of different lengths in a constraint, a variable or a time series raises an error; lengths one '
     'and n are the only combination that is spread.',
     ['inputs'], 'all lengths of factors, bounds, constants and index selections', SAMPLE + 'No test passes wrong lengths.',
     ['math_modeling.py', 'utils.py'], [('Equation.add_summand', 'math_modeling.py'), ('as_vector', 'utils.py')], ['exceptions'])
prop('C20', 'Results equal the solution of the solver',
     'After solving, the result of every variable is its value in the solution, index by index, scalars as scalars, '
     'binaries as whole numbers; without a solution results are refused.',
     ['inputs', 'histories'], 'all variables and all models', SAMPLE, ['math_modeling.py'],
     [('Variable.result', 'math_modeling.py'), ('PyomoModel.solve', 'math_modeling.py')], ['results'])
prop('C21', 'Solver settings reach the solver under its own names',
     'The relative gap, time limit and the other settings chosen by the user reach the selected solver as the options '
     'that this solver understands, with the given values; outcome, gap and log are reported from that solver run.',
     ['configurations'], 'all supported solvers and settings', 'The tests use one solver with default settings.',
     ['math_modeling.py', 'solvers.py'], [('Solver classes', 'math_modeling.py')], ['solver options'])
prop('C22', 'Every part of the system reaches the model',
     'All components, buses, flows and effects, with all their nested models, are formulated exactly once, and all their '
     'variables, equations and inequations are contained in the solved model and in its counts and listings.',
     ['inputs', 'programs'], 'all systems and nesting depths', SAMPLE, ['structure.py', 'elements.py'],
     [('SystemModel', 'structure.py'), ('ElementModel', 'structure.py')], ['all_variables, all_equations, all_inequations'])
prop('C23', 'Labels identify elements uniquely',
     'Two elements of one system never share a label, variables and constraints of one model neither: a second one is '
     'rejected instead of replacing the first. Labels that would be confused with derived ones are reported.',
     ['inputs', 'histories'], 'all labels and orders of registration', 'No test registers duplicates.',
     ['flow_system.py', 'structure.py', 'elements.py'], [('FlowSystem._check_if_element_is_unique', 'flow_system.py')], ['exceptions'])
prop('C24', 'The time grid follows the time stamps',
     'The length of every step is the distance to the next time stamp, the last one as given or like the one before, '
     'of selected steps the distance to the next selected one or to the end of the last one, and the hours before the horizon are as given or like the first step.',
     ['inputs'], 'all time stamps, selections and explicit first/last step lengths', 'The tests use uniform hours.',
     ['flow_system.py', 'calculation.py'], [('FlowSystem', 'flow_system.py')], ['dt_in_hours'])
prop('C25', 'A time series yields the selected and aggregated values',
     'The active value of a time series is its scalar, or the aggregated series if one was set, or the original series, '
     'restricted to the active time steps in their order; resetting restores the original, and a wrong length is rejected.',
     ['inputs', 'histories'], 'all series, selections, aggregations and their orders', SAMPLE, ['core.py'],
     [('TimeSeries', 'core.py')], ['active_data'])
prop('C26', 'All user data become time series of the calculation',
     'Every time-dependent value given to an element is turned into a time series of that element exactly once, so that '
     'selections of time steps and aggregations apply to it; None stays None.',
     ['inputs', 'configurations'], 'all parameters of all elements that accept time-dependent values', SAMPLE,
     ['elements.py', 'components.py', 'effects.py', 'interface.py'], [('transform_data', 'elements.py')], ['attributes after transform_data'])
prop('C27', 'A calculation runs its steps in order',
     'Modelling transforms the data and activates the chosen time steps before the equations are built, solving needs a '
     'model and stores results of that run, and saving writes the results of that run.',
     ['histories'], 'all kinds of calculation', SAMPLE, ['calculation.py'], [('Calculation', 'calculation.py')], ['order of calls'])
prop('C28', 'Segmented calculations hand over exact states',
     'The segments cover the selected steps in order with the given length and overlap, each starts from the flow rates '
     'and charge states of the previous segment at the step where it begins, the original start values are restored '
     'afterwards, and the combined result takes every step exactly once.',
     ['inputs', 'histories'], 'all lengths, overlaps and horizons', 'One length and overlap is sampled.', ['calculation.py'],
     [('SegmentedCalculation', 'calculation.py')], ['windows, start values, combined results'])
prop('C29', 'Aggregation equates and weights periods consistently',
     'Time steps that stand for the same step of the same typical period are tied together in all selected variables '
     '(with bounded deviations only where allowed), and aggregated series repeat their typical periods in order.',
     ['inputs', 'configurations'], 'all clusterings, selections and settings', SAMPLE, ['aggregation.py'],
     [('AggregationModel', 'aggregation.py')], ['equations of the aggregation'])
prop('C30', 'Saved results can be loaded and mean the same',
     'What a calculation writes to disk is what loading reads: same file names, same structure, same keys, for every '
     'calculation name and folder.',
     ['inputs', 'histories'], 'all names, folders and kinds of calculation', 'One save and load is tested per kind.',
     ['calculation.py', 'results.py'], [('Calculation.save_results', 'calculation.py'), ('CalculationResults.__init__', 'results.py')], ['files'])
prop('C31', 'Results belong to the last solution',
     'Results reported after solving are those of the latest solve, never remembered from an earlier one.',
     ['histories'], 'all sequences of solving and reading', 'No test solves twice.', ['calculation.py', 'math_modeling.py'],
     [('Calculation.results', 'calculation.py')], ['results'])
prop('C32', 'Constructor arguments are kept under their names',
     'Every argument given to an element or parameter object is kept unchanged under its name until the calculation '
     'transforms it, so infos and exports show what the user gave.',
     ['inputs'], 'all classes with user arguments', SAMPLE, ['elements.py', 'components.py', 'effects.py', 'interface.py'],
     [('constructors', 'elements.py')], ['attributes'])
prop('C33', 'Loaded results keep signs, labels and the time axis',
     'Tables of a component or bus show inputs and outputs with the documented signs, hours or rates as asked for, '
     'indexed by the time stamps of the calculation.',
     ['inputs'], 'all components, buses, settings', SAMPLE, ['results.py'], [('results classes', 'results.py')], ['data frames'])
prop('C34', 'Plotting shows the data and leaves it unchanged',
     'Plot functions draw the given data, every column and step, do not change the data passed in, and show or save '
     'exactly when asked to.',
     ['inputs', 'configurations'], 'all modes, engines and flags', 'Plots are not tested at all.', ['plotting.py'],
     [('plot functions', 'plotting.py')], ['calls to plotting libraries', 'argument data'])
prop('C35', 'Adding elements registers all of them',
     'Everything added to a system, including buses of flows and nested elements, is registered under its label and found by '
     'lookups, in any order of adding.',
     ['inputs', 'histories'], 'all kinds of elements and orders', SAMPLE, ['flow_system.py'], [('FlowSystem.add_elements', 'flow_system.py')], ['collections'])
prop('C36', 'The network shows every flow in its direction',
     'The network information lists each bus and component as a node and each flow as an edge from its source to its target.',
     ['inputs'], 'all systems', 'Only the existence of a file is tested.', ['flow_system.py'], [('FlowSystem.network_infos', 'flow_system.py')], ['nodes and edges'])
prop('C37', 'Created time arrays are complete and evenly spaced',
     'Creating an array of time stamps yields the asked number of steps from the start in the asked distance, or up to '
     'the end, and rejects ambiguous or missing limits.',
     ['inputs'], 'all starts, ends, steps and frequencies', 'Not tested.', ['commons.py', 'core.py', 'flow_system.py'], [('create_datetime_array', 'flow_system.py')], ['array'])
prop('C38', 'Configuration files change only what they mention',
     'Loading a configuration merges it over the defaults, keeps unmentioned settings and applies logging as configured.',
     ['configurations'], 'all configuration files', 'Not tested.', ['config.py'], [('CONFIG.load_config', 'config.py')], ['settings'])
prop('C39', 'Objects given by the user are not changed behind their back',
     'Dictionaries, lists and arrays passed by the user are never modified in place by the package.',
     ['inputs', 'histories'], 'all entry points that take containers', 'No test looks at its inputs afterwards.',
     ['effects.py', 'elements.py', 'utils.py', 'plotting.py'], [('effect_values_to_dict', 'effects.py')], ['arguments after the call'])
prop('C40', 'The same input gives the same model',
     'Models, labels and results do not depend on hash seeds, addresses or the iteration order of unordered collections.',
     ['inputs', 'histories'], 'all systems, all runs', 'One run cannot see differences between runs.', ['flow_system.py', 'components.py'],
     [('FlowSystem.flows', 'flow_system.py')], ['order of the formulated model'])
prop('C41', 'Implausible input is rejected at construction',
     'The documented plausibility rules of buses, flows, converters and transmissions are enforced when the object '
     'is made, with an error for every violating input and none for others.',
     ['inputs'], 'all arguments', 'Rejection is not tested.', ['elements.py', 'components.py', 'effects.py'], [('_plausibility_checks', 'elements.py')], ['exceptions'])
prop('C42', 'An explicit zero is a value, not an omission',
     'Zero given for a size, limit, loss, penalty or weight is applied as zero and never replaced by a default.',
     ['inputs'], 'all optional numeric parameters', 'Zeros are not sampled.', ['elements.py', 'components.py', 'interface.py', 'features.py'],
     [('tests for None', 'elements.py')], ['bounds and constraints'])
prop('C43', 'Weighted time series are accepted wherever series are',
     'A time series with aggregation weights can be given wherever the documentation accepts a time-dependent value, '
     'with the same meaning as the bare array.',
     ['inputs', 'configurations'], 'all parameters documented as time-dependent', 'Few parameters are sampled.',
     ['elements.py', 'linear_converters.py', 'interface.py', 'core.py'], [('_create_time_series', 'elements.py')], ['attributes'])
prop('C47', 'Asking for information changes nothing',
     'Reading a property or calling a query - descriptions, infos, texts, sizes, results, lists of elements or of '
     'variables, cluster descriptions, time series data - leaves the object asked, and everything reachable from it, '
     'as it was; results that are computed once and kept are the only exception.',
     ['inputs', 'histories'], 'all objects, any number and order of questions', 'No test asks twice and compares the state in between.',
     ['structure.py', 'math_modeling.py', 'flow_system.py', 'aggregation.py', 'results.py', 'calculation.py', 'core.py', 'config.py'],
     [('SystemModel.infos', 'structure.py'), ('Aggregation.describe_clusters', 'aggregation.py')], ['state of the objects asked'])
prop('C48', 'Every option can be used: nothing the package refers to is missing',
     'On every path - any option, solver, plot, error message or rarely used method - names and attributes the package refers to exist '
     'and are set before they are read, calls of its own functions and constructors fit their signatures, library members it uses exist, '
     'messages name the values they speak of, constructors keep what their infos report, and no option of a public function is ignored.',
     ['inputs', 'configurations'], 'all functions of the package, all paths', 'Tests run few of the options; Python finds a missing name only when a line is reached.',
     ['calculation.py', 'math_modeling.py', 'structure.py', 'plotting.py', 'results.py', 'features.py', 'components.py', 'aggregation.py'],
     [('SystemModel.solve', 'structure.py'), ('GurobiSolver.solve', 'math_modeling.py')], ['exceptions', 'messages'])
prop('C49', 'Reports and texts show what they describe',
     'The report written after solving shows the totals, the objective, the investment decisions and exactly the buses and penalties '
     'beyond their thresholds; texts of elements, series, systems, models, solvers and results, compact descriptions of data, tables of '
     'values, lines of the log and the numbers read from a solver log show the values of what they describe, in full and under the '
     'right name.',
     ['inputs', 'histories'], 'all objects and values', 'Nobody compares texts with the objects they describe.',
     ['structure.py', 'utils.py', 'core.py', 'math_modeling.py', 'config.py', 'aggregation.py', 'flow_system.py', 'results.py'],
     [('SystemModel.solve', 'structure.py'), ('apply_formating', 'utils.py')], ['messages', 'texts'])
prop('C44', 'The solver finds the optimum',
     'The reported solution is optimal for the formulated model within the given gap.', ['inputs'], 'all models',
     'An optimum is a property of one solve.', ['math_modeling.py'], [('PyomoModel.solve', 'math_modeling.py')])
prop('C45', 'Typical periods represent the year well',
     'The clustering chosen for an aggregated calculation reproduces the original series within the accuracy asked for.',
     ['inputs'], 'all series', 'Depends on the data.', ['aggregation.py'], [('Aggregation.cluster', 'aggregation.py')])
prop('C46', 'Segmented and full calculations agree where they must',
     'With segments that cover the whole horizon, or an overlap long enough for all couplings, segmented and full '
     'calculations give the same objective.', ['inputs', 'histories'], 'all systems', 'One system is sampled.', ['calculation.py'],
     [('SegmentedCalculation', 'calculation.py')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties', {p['id']: len(p['title']) for p in P if len(p['title']) > 80})
