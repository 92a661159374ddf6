#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to edit)."""
import json
P = []
M = 'src/pymgrid/modules/'


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


p('C01', 'Every microgrid step balances energy',
  'On every step of a microgrid that has its automatically added balancing module, for any set of modules, any state and any complete control, the total energy the modules report as provided equals the total they report as absorbed, and the step never fails because energy cannot be balanced. '
  'A shortage is covered by the other flexible sources up to their limit before any unmet load is recorded, and a surplus goes to the other flexible sinks up to their limit before any overgeneration is recorded. '
  'One step never records both unmet load and overgeneration.',
  ['inputs', 'configurations', 'histories'], 'every composition of modules, module state, and control passed to a step',
  'Tests run a handful of fixed architectures with sampled actions; the guarantee is over every number of modules of every kind, every state and every real-valued control.',
  ['src/pymgrid/microgrid/microgrid.py', 'src/pymgrid/microgrid/utils/step.py', M + 'unbalanced_energy_module.py', M + 'base/base_module.py'],
  [('three-phase dispatch fixed -> controllable -> flex', 'Microgrid.run'), ('energy totals', 'MicrogridStep.balance'), ('infinite slack', 'UnbalancedEnergyModule.max_production / max_consumption')],
  ['info returned by Microgrid.run', 'balance log'])

p('C02', 'Battery charge stays within its capacity limits',
  'After construction with a valid initial charge, and after every step, reset or valid assignment of charge or state of charge, a battery using the default transition model holds a charge between its minimum and its maximum capacity, whatever energy was requested. '
  'Its state of charge always equals its charge divided by its maximum capacity and the reported state shows those same two values. '
  'A refused request (strict mode) leaves charge and state of charge unchanged.',
  ['inputs', 'histories'], 'all battery parameters, all charge levels, all requested energies, all sequences of requests',
  'A sampled set of charge levels and actions cannot cover the boundary combinations of rate limit, remaining capacity and efficiency.',
  [M + 'battery_module.py', M + 'base/base_module.py'],
  [('charge update', 'BatteryModule._update_state'), ('feasible range', 'BatteryModule.max_production / max_consumption'), ('request clipping', 'BaseMicrogridModule.as_source / as_sink')],
  ['BatteryModule.current_charge, soc, state_dict'])

p('C03', 'Battery efficiency, rate limits and cycling cost are applied exactly',
  'Providing an amount of energy E lowers a battery\'s charge by exactly E divided by its efficiency, and absorbing E raises it by exactly E times its efficiency; a user-supplied transition model, if any, is what decides the change instead. '
  'With the default model one step never lowers the charge by more than the maximum discharge nor raises it by more than the maximum charge, and it can always reach that limit or the capacity limit, whichever comes first. '
  'The reward of the step is minus the cycle cost times the absolute change in charge.',
  ['inputs', 'histories'], 'all battery parameters, states and requests',
  'Round-trip losses and rate limits interact for every real-valued efficiency, limit and charge level; examples fix a few numbers.',
  [M + 'battery_module.py'],
  [('loss model', 'BatteryModule.default_transition_model / model_transition'), ('limits', 'BatteryModule.max_production / max_consumption'), ('cost', 'BatteryModule.get_cost')],
  ['return value of BatteryModule.step', 'BatteryModule.current_charge'])

p('C04', 'Requests are served exactly, clipped to the limit, or refused',
  'For every built-in module, state and requested energy: a request within the module\'s current limits is served exactly; one outside is replaced by the nearest limit (maximum production, must-run minimum, maximum consumption), or, if the module is set to raise errors, refused with an error that neither moves the module in time nor changes its energy state nor writes to its log. '
  'The reported amounts are never negative, exactly one of provided and absorbed is reported per step, and a module never acts in a direction it does not support. Every request that is currently feasible can be expressed as a normalized action. ',
  ['inputs', 'configurations'], 'all module classes, parameters, states and requested energies',
  'The limits depend on continuous state; only a proof over all states shows that no request slips past them.',
  [M + 'base/base_module.py', M + 'battery_module.py', M + 'genset_module.py', M + 'grid_module.py', M + 'renewable_module.py', M + 'load_module.py', M + 'unbalanced_energy_module.py'],
  [('clipping', 'BaseMicrogridModule.as_source / as_sink'), ('direction dispatch', 'BaseMicrogridModule._unnormalized_step'), ('limits', 'max_production, min_production, max_consumption of each module')],
  ['info returned by module.step'])

p('C05', 'Genset on/off timing follows its start-up and wind-down times',
  'A genset that is off and is asked on every step to be on starts running exactly on the first step after its start-up time has elapsed (immediately if that time is zero), and symmetrically for turning off with its wind-down time; asking again for the status it already has while a change is in progress cancels the change (when cancellation is allowed) and resets both timers. '
  'The timers never become negative, and the predicted next status, minimum and maximum production equal what the genset then actually does, without the prediction changing anything. '
  'A genset that is not running has zero minimum and maximum production, and a running one has its configured limits.',
  ['inputs', 'histories'], 'all start-up and wind-down times, all reachable statuses and timers, all request sequences',
  'The number of request histories is unbounded; tests enumerate a few times and sequences.',
  [M + 'genset_module.py'],
  [('status machine', 'GensetModule.update_status, _finish_in_progress_change, _non_instantaneous_update'), ('prediction', 'GensetModule.next_status')],
  ['GensetModule.current_status, goal_status, state_dict'], [dict(name='current and goal status, steps until up / down', meaning='status machine of the genset', where='GensetModule')])

p('C06', 'Genset production, cost and emissions agree',
  'Each genset step provides energy only within the limits of the status reached on that step (nothing when off, between running minimum and maximum when on). '
  'Its reward is minus the fuel cost of the provided energy (unit cost times energy, or the user\'s cost function of it) minus the carbon price times its emissions, and the reported emissions are the emission factor times the provided energy.',
  ['inputs', 'histories'], 'all genset parameters, statuses, actions (normalized or not)',
  'Cost, emission factor, carbon price and production are continuous; examples often use zero for some, hiding swapped or dropped terms.',
  [M + 'genset_module.py', M + 'base/base_module.py'],
  [('cost', 'GensetModule.get_cost, get_co2_cost, get_co2, _get_fuel_cost'), ('step', 'GensetModule.step, update')],
  ['return value of GensetModule.step'])

p('C07', 'Grid exchanges respect limits and outages and are priced correctly',
  'In every step the energy imported from a grid lies between zero and its import limit and the energy exported between zero and its export limit, and both are zero whenever the grid status is an outage. '
  'Importing earns minus the current import price times the energy minus the carbon price times the emissions, exporting earns the current export price times the energy with no emissions, using the prices, emission factor and status of the current step. '
  'Construction rejects negative limits, negative time series and non-binary status, and a three-column series means the grid is always available.',
  ['inputs', 'histories', 'configurations'], 'all price/emission/status time series of any length, steps, limits and requests',
  'Tests use one constant or random series; an index, sign or status slip shows only at particular rows and requests.',
  [M + 'grid_module.py', M + 'base/timeseries/base_timeseries_module.py'],
  [('limits', 'GridModule.max_production / max_consumption'), ('pricing', 'GridModule.get_cost, get_co2_cost, get_co2_production'), ('validation', 'GridModule._check_params')],
  ['return value of GridModule.step'])

p('C08', 'Load is met exactly and renewable use plus curtailment is what is available',
  'At every step a load module absorbs exactly the magnitude of its time series at the current step, regardless of any requested action and regardless of the sign convention of the series it was given. '
  'A renewable module provides at most the magnitude of its series at the current step, and the energy it provides plus the curtailment it reports equals that magnitude; both modules have zero reward. '
  'A series with mixed signs is rejected.',
  ['inputs', 'histories'], 'all time series of any length, all steps, all requests',
  'Off-by-one, sign or stale-index mistakes only show on particular rows, signs or requests.',
  [M + 'load_module.py', M + 'renewable_module.py', M + 'base/timeseries/base_timeseries_module.py'],
  [('series access', 'LoadModule.current_load, RenewableModule.current_renewable'), ('sign handling', 'BaseTimeSeriesMicrogridModule._sign_check'), ('accounting', 'LoadModule.update, RenewableModule.update')],
  ['return value of step'])

p('C09', 'Unmet load and overgeneration are priced at their configured rates',
  'The balancing module can provide or absorb any finite amount. Providing E (unmet load) gives reward minus the loss-of-load cost times E and absorbing E (overgeneration) gives reward minus the overgeneration cost times E; it never ends the episode and its logged unmet load and overgeneration are those same amounts. '
  'The rates configured on a microgrid are the ones its automatically added balancing module uses.',
  ['inputs'], 'all amounts and non-negative cost rates',
  'Equal or default rates in tests hide swapped terms; the claim is for every rate and amount.',
  [M + 'unbalanced_energy_module.py', 'src/pymgrid/microgrid/microgrid.py'],
  [('pricing', 'UnbalancedEnergyModule.get_cost / update'), ('configuration', 'Microgrid._get_unbalanced_energy_module')],
  ['return value of UnbalancedEnergyModule.step', 'log'])

p('C10', 'A microgrid step faithfully aggregates its modules',
  'The outcome of a microgrid step contains, for every module exactly once and in order under its name, the observation and information that module returned; the reward is the sum of all module rewards, or the value of the reward-shaping function applied to that information if one is set; done is true exactly if some module reported done. '
  'Each controllable module receives exactly the action at its position under its name; a missing entry is an error and surplus entries change nothing. '
  'The control passed in and the modules used to build the microgrid are not modified by stepping.',
  ['inputs', 'configurations'], 'all module compositions and controls, shaped or unshaped rewards',
  'Dropping, double-counting or misrouting one module shows only in particular compositions.',
  ['src/pymgrid/microgrid/microgrid.py', 'src/pymgrid/microgrid/utils/step.py', 'src/pymgrid/microgrid/reward_shaping/base.py'],
  [('aggregation', 'MicrogridStep.append / output / balance'), ('routing', 'Microgrid.run')],
  ['return value of Microgrid.run'])

p('C11', 'Normalization maps bounds to [0, 1] and is invertible',
  'For every module and microgrid space, normalizing maps the lower bound to 0, the upper bound to 1 and is affine in between, denormalizing maps 0 to the lower and 1 to the upper bound, and each undoes the other wherever upper and lower bound differ; where they coincide, normalizing the bound gives 0 and denormalizing 0 gives the bound. '
  'Values of the wrong length are rejected, and the space bounds are not changed by use. '
  'Module and microgrid level conversions of actions and observations agree with these maps.',
  ['inputs', 'configurations'], 'all bounds (including coinciding ones), values, shapes',
  'Tests check a few numeric examples; the law is over all reals and shapes, including degenerate bounds.',
  ['src/pymgrid/utils/space.py', M + 'base/base_module.py', 'src/pymgrid/microgrid/microgrid.py'],
  [('affine maps', 'ModuleSpace.normalize / denormalize, MicrogridSpace.normalize / denormalize'), ('use', 'BaseMicrogridModule.to_normalized / from_normalized, Microgrid.to_normalized / from_normalized')],
  ['return values'])

p('C12', 'Time advances one step at a time and episodes end at the final step',
  'Every successful step advances each module\'s clock by exactly one and every reset returns it to the initial step; observing, sampling, forecasting or normalizing does not move it. '
  'A time-series module reports done exactly when the step just taken used the last row before its final step, and its current observation is the row of its series at the current step (a mid-range filler beyond the end). '
  'The final step must exceed the initial step, and a non-positive final step means the end of the series.',
  ['inputs', 'histories'], 'all series lengths, initial and final steps, positions',
  'Boundary rows (first, last, past the end) of arbitrary windows are quantified over; tests run fixed lengths.',
  [M + 'base/base_module.py', M + 'base/timeseries/base_timeseries_module.py', 'src/pymgrid/microgrid/microgrid.py'],
  [('clock', 'BaseMicrogridModule._update_step / reset'), ('termination', 'BaseTimeSeriesMicrogridModule._done'), ('observation', 'BaseTimeSeriesMicrogridModule.current_obs'), ('window', 'final_step setter')],
  ['current_step, done flag, state'])

p('C13', 'Forecasts look at the right future values and never corrupt the data',
  'For every series, position and horizon, the perfect forecaster returns, row by row, the actual series values of the following steps, and a filler at the midpoint of the observation bounds for steps beyond the end; every forecaster returns one row per horizon step and one column per series component, with values inside the observation bounds. '
  'The reported state is the current values followed by that forecast, in order. '
  'Forecasting never changes the stored series, also after the series or the forecaster is replaced. Changing the horizon keeps the forecaster, whose forecasts then have the new length.',
  ['inputs', 'histories', 'configurations'], 'all series lengths, positions, horizons and forecasters (perfect, noisy, user-defined, none)',
  'Off-by-one, padding and aliasing errors depend on the distance to the end of the series and on whether values are clipped.',
  ['src/pymgrid/forecast/forecaster.py', M + 'base/timeseries/base_timeseries_module.py'],
  [('windowing', 'BaseTimeSeriesMicrogridModule.forecast'), ('padding and clipping', 'Forecaster._pad / _clip / __call__'), ('state', 'BaseTimeSeriesMicrogridModule._state_dict')],
  ['module.forecast(), module.state, module.time_series'])

p('C14', 'Logs record exactly what happened',
  'After n successful steps since the last reset every column of a module\'s log and of the balance log has n entries; each module entry holds the state before that step (for a genset, the status in force during it, as updated at its start), the reward and the energy provided and absorbed under the module\'s energy names, with zero for the direction not used, and a value absent from some steps is a missing value there and nowhere else. '
  'The balance log\'s totals equal the sums over the modules, split into fixed and controllable parts, and its reward is the unshaped reward. '
  'Reset empties the logs and returns what was in them.',
  ['inputs', 'histories'], 'all step sequences and module compositions',
  'Misalignment appears only for particular histories (keys that come and go, resets in the middle).',
  ['src/pymgrid/utils/logger.py', M + 'base/base_module.py', 'src/pymgrid/microgrid/microgrid.py'],
  [('logging', 'ModularLogger.log / flush, BaseMicrogridModule._log'), ('balance log', 'Microgrid.run / _get_log_dict'), ('merge', 'Microgrid.get_log')],
  ['module.log, microgrid.log'])

p('C15', 'Saving and loading reproduces the simulation state',
  'Saving a module or a microgrid and loading it back, at any point of a simulation, gives an equal object: same class and constructor parameters, same current step, charge, status and timers, same log, same series, forecaster and horizon, same names, reward-shaping and trajectory settings. '
  'Stepping the copy with the same actions gives the same observations, rewards and termination as stepping the original.',
  ['histories', 'configurations'], 'all module types, parameters and simulation histories',
  'A field that is not restored matters only after particular histories; tests round-trip few states.',
  [M + 'base/base_module.py', 'src/pymgrid/utils/serialize.py', 'src/pymgrid/utils/logger.py', 'src/pymgrid/microgrid/microgrid.py'],
  [('state capture', 'BaseMicrogridModule.serialize / deserialize, _serialize_cls_params'), ('microgrid', 'Microgrid.serialize / from_yaml')],
  ['loaded object'])

p('C16', 'Priority-list and rule-based control produce feasible dispatch in order',
  'For every microgrid state and every priority list over its controllable modules, the actions derived from it serve the remaining load in list order: each module is asked for as much as it can currently give or take, never more than its limits and never more than what remains, and modules after the point where the load is met are asked for nothing except a must-run minimum. '
  'The list of available priority lists contains every ordering exactly once with gensets appearing once per status option, and the rule-based controller orders modules by increasing marginal cost. '
  'The discrete environment executes exactly the list that its action number denotes.',
  ['inputs', 'configurations'], 'all module states, loads and orderings',
  'The greedy allocation has many boundary cases (must-run, nothing left, surplus) over continuous states.',
  ['src/pymgrid/algos/priority_list/priority_list.py', 'src/pymgrid/algos/priority_list/priority_list_element.py', 'src/pymgrid/algos/rbc/rbc.py', 'src/pymgrid/envs/discrete/discrete.py'],
  [('allocation', 'PriorityListAlgo._populate_action / _produce_from_module / _consume_in_module'), ('ordering', 'PriorityListElement.__lt__, RuleBasedControl._get_priority_list')],
  ['action dictionaries'])

p('C17', 'Episode windows drawn by trajectories are always valid',
  'Whenever one of the built-in trajectories, or a function that keeps to the window it is given, is set on a microgrid with time series, every reset starts the episode at a step inside the microgrid\'s own window and ends it inside that window, strictly after the start, and all modules get that same window. '
  'The fixed-length trajectory always yields exactly its length, for every length that fits, and the random trajectory always succeeds when the window has at least three steps. '
  'A trajectory function whose values fall outside the window is rejected at construction.',
  ['inputs', 'configurations', 'histories'], 'all windows, lengths and random draws',
  'Random draws that hit the boundary are rare; a proof covers every draw.',
  ['src/pymgrid/microgrid/trajectory/stochastic.py', 'src/pymgrid/microgrid/trajectory/deterministic.py', 'src/pymgrid/microgrid/microgrid.py'],
  [('draws', 'StochasticTrajectory.__call__, FixedLengthStochasticTrajectory.__call__'), ('application', 'Microgrid._set_trajectory / _check_trajectory_func')],
  ['module.initial_step / final_step after reset'])

p('C18', 'Every module is registered exactly once under its name and role',
  'For every list of modules, the microgrid holds each given module exactly once, under the given or default name, in the order given within a name, and under exactly one of fixed, flexible and controllable and exactly one of source, sink and source-and-sink according to what it is; names used for modules of different kind are rejected rather than dropping a module. '
  'Each module is labelled with its name and its position, and the flat, by-name and by-role views list the same modules.',
  ['inputs', 'configurations'], 'all lists of modules and names',
  'Collisions and empty roles show only for particular combinations.',
  [M + 'module_container.py'],
  [('partition', 'get_subcontainers'), ('views', 'Container.to_list / to_dict / to_tuples / iterdict, ModuleContainer')],
  ['microgrid.modules, fixed, flex, controllable'])

p('C19', 'Conversion between the modular and the legacy microgrid preserves parameters',
  'Converting a legacy microgrid to a modular one and back, or a modular one to legacy and back, preserves the load, renewable and grid price/emission/status series, the capacity, rate, efficiency, minimum state of charge and current state of charge of the battery, the minimum and maximum production, cost and emissions of the genset, the import and export limits of the grid, the forecast horizon, and the costs of unmet load, overgeneration and emissions. '
  'This holds for microgrids with a renewable source, legacy batteries whose maximum state of charge is 1 and one emission price. '
  'Conversion is independent of earlier conversions, leaves the converted microgrid unchanged, and microgrids without a load, with several modules of one kind or with unknown kinds of module are rejected with an error.',
  ['inputs', 'configurations'], 'all parameter values and supported architectures',
  'Swapped or dropped parameters are hidden when examples use symmetric values.',
  ['src/pymgrid/convert/convert.py', 'src/pymgrid/convert/get_module.py', 'src/pymgrid/convert/to_nonmodular_ops.py'],
  [('to modular', 'get_module'), ('to legacy', 'to_nonmodular, add_*_params')],
  ['attributes of the converted object'])

p('C20', 'The legacy simulator enforces component limits and accounts for all energy',
  'For every state and every control request, the production recorded by a step of the legacy microgrid respects the battery power limits and (within 1e-3) its state-of-charge limits, the genset maximum, the genset minimum for requests above one unit, and the grid power limits and outages; requests within those limits are carried out as given, and a request beyond a genset, grid or battery power limit gets that limit. '
  'Recorded supply (renewable used, discharge, genset, import, unmet load) equals recorded use (load, charge, export, overgeneration) in every step. '
  'The recorded costs and emissions are the configured unit costs times the recorded quantities, the total is their sum, the next state of charge follows from the recorded charge and discharge, and the next recorded state (which the battery object shows too, until the episode ends) shows the series values of the next row of the data set in use.',
  ['inputs', 'histories', 'configurations'], 'all architectures, parameter values, states and controls',
  'The clipping logic has many branches over continuous quantities; tests run a few generated microgrids.',
  ['src/pymgrid/_deprecated/non_modular_microgrid.py'],
  [('limits', 'NonModularMicrogrid._check_constraints_*'), ('balance', 'NonModularMicrogrid._record_production'), ('cost', 'NonModularMicrogrid._record_cost'), ('state', 'Battery / _update_status')],
  ['_df_record_actual_production, _df_record_cost, _df_record_state'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
