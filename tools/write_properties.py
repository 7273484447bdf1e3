#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
M = 'src/nempy/markets.py'
B = 'src/nempy/spot_market_backend/'
H = 'src/nempy/historical_inputs/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': hook}})


prop('C01', 'Supply meets demand in every region',
     'After every successful dispatch, each region\'s scheduled generation, less scheduled load, plus net interconnector inflow '
     '(scaled by the regional loss factors), less its share of interconnector losses, equals the demand set for that region, up to '
     'the deficit or surplus reported when the demand constraint was made elastic. '
     'Bidirectional units count with their generation minus their load, and FCAS enablement never counts as energy. '
     'A market that cannot balance raises an error instead of returning a dispatch.',
     ['inputs', 'configurations'],
     'all markets: any number of regions, generators, loads, bidirectional units, interconnectors with and without losses',
     'the tests balance a handful of hand made two-region markets; the balance has to hold for every combination of unit types, links and losses',
     [M, B + 'market_constraints.py', B + 'variable_ids.py', B + 'interconnectors.py', B + 'solver_interface.py'],
     [('demand constraint and regional variable map', M + ' SpotMarket.set_demand_constraints/dispatch'),
      ('sign and loss-factor coefficients', B + 'variable_ids.py bids; ' + B + 'interconnectors.py create, create_loss_variables')],
     ['unit dispatch, interconnector flows and losses returned after dispatch'])

prop('C02', 'Dispatch stays within offers, bid capacity and forecasts',
     'Every unit\'s dispatch in every service is non-negative and never exceeds the volume it offered for that service and side, '
     'each band being available up to its full volume at its own price. '
     'Energy dispatch also never exceeds the unit\'s bid-in maximum capacity or its unconstrained intermittent generation forecast when those are set, '
     'and these limits withhold nothing below the stated value.',
     ['inputs', 'configurations'],
     'all bid stacks of 1 to 10 bands for generators, loads and both sides of bidirectional units, all capacity and forecast limits',
     'tests pin a few exact dispatches; the bound has to hold for each band, side and service of any stack',
     [M, B + 'variable_ids.py', B + 'unit_constraints.py'],
     [('bid variable bounds', B + 'variable_ids.py bids'), ('capacity and forecast constraints', B + 'unit_constraints.py capacity, uigf')],
     ['unit dispatch returned after dispatch'])

prop('C03', 'Dispatch is the least cost one and its cost is reported',
     'The dispatch returned minimises total cost over all dispatches allowed by the constraints that were set: energy offers referred to the regional '
     'node by dividing by the loss factor, load bids counted as benefit, FCAS offers at bid price, plus the cost of any constraint violation. '
     'The reported objective value equals that minimum, and a market with no allowed dispatch raises an error.',
     ['inputs', 'configurations'],
     'all markets combining every constraint type in one model',
     'optimality over all alternatives cannot be sampled by exact-value tests; tests assert selected optima in small fixed markets',
     [M, B + 'objective_function.py', B + 'solver_interface.py'],
     [('objective assembly', B + 'objective_function.py bids, scale_by_loss_factors'), ('solve', B + 'solver_interface.py InterfaceToSolver')],
     ['objective value and dispatch returned after dispatch'])

prop('C04', 'Energy and FCAS prices are marginal costs',
     'Each regional energy price is the change in least total cost per extra MW of that region\'s demand, and each FCAS price is the sum, over the requirement sets '
     'that cover the region and service, of the change in least total cost per extra MW of the set\'s volume; where the cost has a kink the price lies between the two one-sided '
     'rates. Marginal interconnector losses at the dispatched flow are reflected in the price difference between regions.',
     ['inputs', 'configurations'],
     'all markets, all regions and requirement sets, all flow positions on the loss curve',
     'tests assert prices for a few fixed markets; marginality is a statement about neighbouring markets for every market',
     [M, B + 'solver_interface.py'],
     [('linear pricing run with interpolation weights fixed', M + ' dispatch, _get_linear_model'), ('dual lookup', B + 'solver_interface.py price_constraints')],
     ['energy and FCAS prices returned after dispatch', 'objective of perturbed markets'])

prop('C05', 'FCAS requirements are met by the right units',
     'For every FCAS requirement set, the total enablement of the named services by units in the named regions equals, is at least or is at most the set\'s volume '
     'according to its type (equality when no type is given), up to the reported violation when elastic. '
     'A unit\'s enablement never exceeds its stated maximum availability for that service and side, nothing else restricts it, and both sides of a bidirectional unit count towards the requirement.',
     ['inputs', 'configurations'],
     'all sets spanning one or more regions and services, overlapping sets, all ten FCAS services',
     'tests use one set per service and one or two regions; overlap and multi-service sets are unbounded',
     [M, B + 'market_constraints.py', B + 'unit_constraints.py'],
     [('requirement constraints', B + 'market_constraints.py fcas'), ('max availability', B + 'unit_constraints.py fcas_max_availability')],
     ['unit dispatch by service, FCAS requirement tables'])

prop('C06', 'Units only move as far as their ramp rates allow',
     'When ramp rates are set, a unit\'s energy target lies between its initial output minus and plus the ramp rate times the interval length, using the lower of bid and telemetered rates, '
     'for any interval length; the limit is exact in both directions. '
     'A bidirectional unit\'s net output is limited likewise, its load-side rates applying while it is below zero and its generator-side rates while above, pro rata in time when it crosses zero. '
     'Units in the early fast start modes are exempt, and a unit that left fast start mode two during the interval may rise from its minimum loading only for the time since then.',
     ['inputs', 'configurations'],
     'all initial outputs (both signs for bidirectional units), all bid and telemetered rates including missing telemetry, all interval lengths and fast start states',
     'crossing zero, missing telemetry and fast-start adjustments multiply; tests fix a few points of each',
     [M, B + 'ramp_rate_processing.py', B + 'unit_constraints.py'],
     [('ramp limits', B + 'unit_constraints.py ramp_up, ramp_down'), ('composite, telemetered and fast start adjustments', B + 'ramp_rate_processing.py')],
     ['energy dispatch against initial output'])

prop('C07', 'Fast start units follow their inflexibility profile',
     'With fast start constraints set, a unit ending the interval in mode 0 or 1 is at zero, in mode 2 exactly at its minimum loading times the fraction of mode two elapsed, '
     'in mode 3 at or above minimum loading, and in mode 4 at or above minimum loading times the fraction of mode four remaining; later modes are unconstrained. '
     'Removing or replacing the fast start constraints leaves no trace of the earlier ones.',
     ['inputs', 'histories'],
     'all end modes, elapsed times, mode lengths and minimum loadings; all set/remove/set sequences',
     'the tests cover one unit per mode and no sequences of set and remove',
     [M, B + 'unit_constraints.py'],
     [('profile constraints', B + 'unit_constraints.py create_fast_start_profile_constraints'), ('set/remove', M + ' set_fast_start_constraints, remove_fast_start_constraints')],
     ['energy dispatch, violation degree'])

prop('C08', 'Energy and FCAS targets fit together inside the FCAS trapeziums',
     'For every unit with contingency or regulation trapeziums set, energy plus slope-weighted enablement (plus raise regulation for a generator, lower regulation for a load, where it also '
     'provides a contingency service) stays at or below the enablement maximum, and the mirrored expression stays at or above the enablement minimum; net energy is used for bidirectional units. '
     'When joint ramping is set, energy plus regulation enablement also stays reachable within the telemetered ramp rates from the initial output, in both directions. '
     'The limits are exact: any combination inside them is available.',
     ['inputs', 'configurations'],
     'all trapezium shapes for generators, loads and bidirectional units, all services, all initial outputs and telemetered ramp rates, including units offering only one regulation direction',
     'joint limits couple several services per unit; tests check selected fixed shapes only',
     [M, B + 'fcas_constraints.py'],
     [('joint capacity', B + 'fcas_constraints.py joint_capacity_constraints'), ('energy and regulation', B + 'fcas_constraints.py energy_and_regulation_capacity_constraints'),
      ('joint ramping', B + 'fcas_constraints.py joint_ramping_*')],
     ['unit dispatch by service and side'])

prop('C09', 'Interconnector flows, links and losses follow the definitions',
     'Each interconnector flow lies within its limits, its reported losses equal the linear interpolation of its loss function between the two break points surrounding the flow, '
     'and losses are charged to the two regions according to the loss share. '
     'When an interconnector is made of directional links at most one of them carries flow. '
     'This holds for every interconnector independently, in whatever order they and their break points are listed.',
     ['inputs', 'configurations'],
     'all interconnector networks, loss curves, break point spacings, loss shares, link pairs and price patterns including negative prices',
     'tests use one or two interconnectors with evenly spaced break points; interpolation must hold at every flow and when burning energy would pay',
     [M, B + 'interconnectors.py', B + 'solver_interface.py'],
     [('interpolation weights and ordered sets', B + 'interconnectors.py, ' + B + 'solver_interface.py add_sos_type_1, add_sos_type_2'), ('loss shares', B + 'interconnectors.py create_loss_variables')],
     ['interconnector flows and losses returned after dispatch'])

prop('C10', 'Generic constraints bind the stated combination of terms',
     'Every generic constraint limits exactly the sum of its unit, region and interconnector terms (a region term applies to all units of the region providing the service, '
     'terms from several sources add up, directional links count with their direction factor, and the load side of a bidirectional unit counts as negative energy) to its right hand side with its stated relation. '
     'Terms naming an FCAS requirement set modify that requirement in the same way, and terms naming no set that was created have no effect.',
     ['inputs', 'configurations'],
     'all sets mixing the three kinds of terms with arbitrary coefficients and relations',
     'tests check one or two sets at a time; sums over overlapping terms are unbounded',
     [M, B + 'solver_interface.py'],
     [('term assembly', B + 'solver_interface.py create_unit_level_generic_constraint_lhs, create_region_level_generic_constraint_lhs, create_interconnector_generic_constraint_lhs')],
     ['dispatch and flows against the constraint tables'])

prop('C11', 'Elastic constraints trade violation for cost exactly',
     'A constraint made elastic may be broken, in the violating direction only (both directions for equalities), at the stated cost per MW; constraints not made elastic, including sets absent from a cost table, are never broken. '
     'The violation degree reported for a group equals the total amount by which the returned dispatch breaks it, and is zero when no violation is worthwhile. '
     'Making constraints elastic again, or setting them again, replaces the earlier cost rather than adding to it.',
     ['inputs', 'histories', 'configurations'],
     'every constraint group, scalar and per-set costs, costs below and above the cost of compliance, repeated calls',
     'tests violate one group at a time; the trade-off has to hold for each group and mixture of costs',
     [M, B + 'elastic_constraints.py'],
     [('deficit variables', B + 'elastic_constraints.py create_deficit_variables'), ('violation degree', M + ' get_elastic_constraints_violation_degree')],
     ['violation degree, dispatch, objective value'])

prop('C12', 'Equal priced energy bids share dispatch pro rata',
     'With tie breaking on, energy bid bands of different units in the same region, on the same side, with the same price at the regional node are dispatched to equal fractions of their volume whenever '
     'no other constraint prevents it, however many bands and units are tied. '
     'Tie breaking never changes total cost beyond its own small penalty, and a market without ties is dispatched as if it were off.',
     ['inputs', 'configurations'],
     'all sets of tied bands, unit names and loss factors, ties on the generation and the load side at once',
     'the tests tie two or three units by name; pairing of bands has to work for every set of names and prices',
     [M, B + 'unit_constraints.py'],
     [('pairwise tie-break constraints', B + 'unit_constraints.py tie_break_constraints')],
     ['unit energy dispatch'])

prop('C13', 'Over-constrained dispatch re-run only repairs prices',
     'Allowing the over-constrained re-run never changes unit dispatch, flows or violation degrees, and changes prices only if a price reached the stated ceiling or floor while a generic or FCAS requirement constraint was violated. '
     'In that case prices are those of the same market with each violated generic and FCAS requirement constraint relaxed just enough not to be violated. '
     'Asking for the re-run without all three price limits is refused.',
     ['inputs', 'configurations'],
     'all markets with elastic generic or FCAS constraints, all ceilings and floors',
     'the tests include two fixed over-constrained cases',
     [M, B + 'solver_interface.py'],
     [('relax and re-price', M + ' dispatch'), ('right hand side update', B + 'solver_interface.py update_rhs')],
     ['prices and dispatch with and without the option'])

prop('C14', 'Only the latest inputs count, and dispatch is repeatable',
     'A market that was configured, dispatched and reconfigured in any order of allowed calls behaves exactly like a new market given only the final inputs: setting something again fully replaces what was set before. '
     'Dispatching twice without changes gives the same dispatch cost, prices and reports.',
     ['histories', 'programs'],
     'all sequences of set, make elastic, remove and dispatch calls, including replacing a table by a smaller one or dropping a violation cost',
     'the tests build each market once; histories of calls are unbounded',
     [M],
     [('per-group replacement of variables and constraints', M + ' every set_* method')],
     ['all results after dispatch'])

prop('C15', 'Results do not depend on table layout or labels',
     'Permuting the rows or columns of any input table, changing its index, listing calls for independent groups in a different order, or consistently renaming units, sets and interconnectors leaves the dispatch cost, prices and violations unchanged, and dispatch too where it is unique. '
     'Dropping zero volume bands or omitting optional columns in favour of their documented defaults makes no difference.',
     ['inputs', 'configurations'],
     'all permutations, index labels and renamings of any market\'s inputs',
     'metamorphic relation over pairs of runs; no test runs the same market twice with a different layout',
     [M, B],
     [('joins by key columns', B), ('id allocation', 'src/nempy/help_functions/helper_functions.py save_index')],
     ['all results after dispatch'])

prop('C16', 'Malformed market inputs are rejected, well formed ones accepted',
     'Every market input table with a missing required column, an unknown column, a wrong type, a null or infinite number, a forbidden negative, a value outside the allowed names, or a repeated key is refused with the corresponding documented error, as are '
     'non-monotonic price bids, incomplete bidirectional inputs and calls made before what they depend on. '
     'A refused call leaves the market as it was, and well formed tables are never refused.',
     ['inputs', 'programs'],
     'every input table of the market, every column, every kind of defect, alone and in otherwise valid calls',
     'no test feeds malformed tables to most setters',
     [M, B + 'dataframe_validator.py'],
     [('schemas', M + ' _validate_*'), ('validator', B + 'dataframe_validator.py')],
     ['exceptions raised by market calls'])

prop('C17', 'Regional summaries and FCAS availability agree with the dispatch',
     'The regional summary lists every region with units or interconnectors and reports net unit dispatch, net inflow, transmission losses and interconnector losses that add up to the demand of each balanced region. '
     'The reported FCAS availability of a unit is the highest enablement in that service its FCAS limits allow given its other targets, and is never below its actual enablement.',
     ['inputs', 'configurations'],
     'all markets with any mix of interconnectors, losses, loss factors and FCAS limits',
     'the tests check selected fixed summaries with loss factors of one',
     [M],
     [('summary', M + ' get_region_dispatch_summary'), ('availability', M + ' get_fcas_availability')],
     ['regional summary and FCAS availability tables'])

prop('C18', 'Historical bids are prepared as the market operator would',
     'Bids read from a historical interval keep every offered band up to its unit\'s maximum availability and refer prices to the node with the right loss factor, and FCAS offers are kept exactly when the unit\'s availability, enablement limits and output satisfy the published enablement conditions. '
     'Regulation trapeziums are scaled to the stricter of offered and telemetered enablement limits, telemetered ramp rates and intermittent forecasts by the published scaling rules, for generators, loads and bidirectional units alike. '
     'Asking for trapeziums before bids are processed is refused.',
     ['inputs', 'programs'],
     'all intervals: any mix of units, telemetry present or absent, any trapezium',
     'the tests run without real interval files, so most of the chain is untested offline; the scaling rules have many branches per unit',
     [H + 'units.py'],
     [('AGC, ramp and forecast scaling', H + 'units.py _scaling_for_*'), ('enablement conditions', H + 'units.py _enforce_preconditions_for_enabling_fcas')],
     ['processed bids and trapezium tables'])

prop('C19', 'Historical unit limits and fast start states are read correctly',
     'Unit information, bid availability, forecasts, ramp rates and initial outputs derived for a historical interval match the interval\'s records for each unit and side. '
     'Fast start units are advanced through their modes by exactly one dispatch interval, carrying left over minutes across as many modes as they span, only units that are off and unstarted stay in mode zero unless dispatched, and the time since the end of mode two is reported.',
     ['inputs', 'histories'],
     'all fast start parameter sets and states, all units and sides, all telemetry patterns',
     'mode arithmetic over arbitrary lengths (including zero) cannot be covered by fixed cases',
     [H + 'units.py'],
     [('mode update', H + 'units.py fast start functions'), ('unit tables', H + 'units.py UnitData')],
     ['historical unit tables'])

prop('C20', 'Any dispatch interval maps to its own historical file',
     'Loading an interval by its time stamp always reads the file of that interval\'s market day (starting at 04:05) and interval number, across month and year ends, falling back to the over-constrained file when only that exists. '
     'An interval that is not cached and cannot be downloaded is reported as missing, never silently replaced by another interval\'s data. Populating the cache for a range of days or months fetches every interval of those dates, and a search for violated intervals returns the first ones in time order with the violations recorded for them.',
     ['inputs', 'fault_sequences', 'histories'],
     'all time stamps on the five minute grid, any cache content, any download failures',
     'tests need the network and are skipped offline',
     [H + 'xml_cache.py', H + 'loaders.py'],
     [('file naming', H + 'xml_cache.py'), ('download', H + 'xml_cache.py')],
     ['files read and data returned'])

prop('C21', 'Historical records are extracted faithfully',
     'Every value extracted from an interval\'s record (bids, initial conditions, trapeziums, fast start data, limits, constraint right hand sides, violation costs and violation totals, prices) equals the value recorded for that unit, service or constraint, missing entries get only their documented default, '
     'and intervals with an intervention use the market (non-intervention) run\'s values.',
     ['inputs'],
     'all interval records: any mix of traders, constraints, services, missing attributes and intervention flags',
     'tests need the network and are skipped offline; missing attributes occur only in some intervals',
     [H + 'xml_cache.py'],
     [('extractors', H + 'xml_cache.py XMLCacheManager get_*')],
     ['tables returned by the interval reader'])

prop('C22', 'Market database lookups return the rows in force',
     'For any interval time, lookups return exactly the stored rows in force then: same settlement time, interval, market day or within start and end dates, and for versioned tables the latest effective date not after the interval with its highest version, per key. '
     'Rows of other times, superseded versions and duplicates are never returned.',
     ['inputs', 'histories'],
     'all table contents and query times, including ties, future versions and market day boundaries',
     'the tests use two or three rows per table',
     [H + 'mms_db.py'],
     [('queries', H + 'mms_db.py Inputs* classes')],
     ['tables returned by database lookups'])

prop('C23', 'Filling the market database neither loses nor duplicates rows',
     'After populating the database for a period, each monthly table holds every non-intervention row published for each month of the period (and the preceding month) exactly once, historical tables hold each key once with its newest record, and repeating or overlapping population changes nothing. '
     'Missing published files raise or are skipped as documented without corrupting rows already stored.',
     ['histories', 'fault_sequences', 'inputs'],
     'all periods (including year ends), overlapping loads, repeated loads, missing files',
     'the tests cannot download; population is never exercised offline',
     [H + 'mms_db.py'],
     [('append without duplicates', H + 'mms_db.py add_data, set_data'), ('period loop', H + 'mms_db.py populate')],
     ['database content after population'])

prop('C24', 'Constraint right hand sides are recomputed exactly',
     'Evaluating a generic constraint\'s right hand side expression gives the value defined by its postfix operations, term factors and groups applied to the interval\'s measured values, using the default where data is missing as recorded. '
     'Overriding a measured value changes exactly the results that depend on it and nothing else, and the listed dependants of a measurement are exactly those expressions whose value uses it.',
     ['inputs', 'programs', 'histories'],
     'all well formed postfix programs over the supported operations, any nesting of groups, any override sequence',
     'the tests evaluate about twenty fixed expressions; those with real data need the network',
     [H + 'rhs_calculator.py'],
     [('postfix evaluation', H + 'rhs_calculator.py'), ('overrides', H + 'rhs_calculator.py update_spd_id_value')],
     ['values returned by the calculator'])

prop('C25', 'Historical networks, demand and constraints translate faithfully',
     'Loss curves, break points, loss shares, limits and link pairs built from historical tables give the published marginal loss equation for every flow and demand, regional demand equals the recorded total demand of each region and the demand the loss equation uses its initial supply plus demand forecast, '
     'and constraint sets carry their published terms, relation, right hand side and violation cost with FCAS requirements assigned to the right regions and services.',
     ['inputs'],
     'all interconnector definitions, loss parameters, demands and constraint tables',
     'tests fix one row of each; formula and joins must hold for any table',
     [H + 'interconnectors.py', H + 'demand.py', H + 'constraints.py'],
     [('loss functions', H + 'interconnectors.py create_loss_functions'), ('constraint mapping', H + 'constraints.py ConstraintData')],
     ['tables returned by the historical input builders'])

prop('C26', 'Time sequential runs chain intervals through actual dispatch',
     'In a time sequential simulation the initial output used for each interval is each unit\'s energy dispatch of the previous interval (zero if it had none), with each unit\'s bid ramp rates kept and no unit lost or duplicated, so successive energy targets never differ by more than the ramp allows over the interval. '
     'Seeding from historical dispatch pairs each unit with its own initial output.',
     ['histories', 'inputs'],
     'all chains of intervals with changing bids, demand and interval lengths',
     'one three-interval example exists; chains are unbounded',
     ['src/nempy/time_sequential.py', M],
     [('chaining', 'src/nempy/time_sequential.py construct_ramp_rate_parameters, create_seed_ramp_rate_parameters')],
     ['dispatch of consecutive intervals'])

prop('C27', 'Markets and tables are independent of each other',
     'No call changes a table passed to it (its columns, rows, types or values), so the same tables can be passed to any number of markets and calls with the same outcome. '
     'Changing a table after it was passed in or handed out, or working with other markets or builders in between, never changes what a market accepts, dispatches or reports, nor what the historical input builders return.',
     ['histories', 'inputs'],
     'all interleavings of calls on several markets and builders sharing tables, with tables changed by their owner at any point',
     'every test builds one market from its own tables and never looks at them again',
     [M, H + 'constraints.py', H + 'units.py', H + 'interconnectors.py'],
     [('table ownership', 'src/nempy/markets.py every set_ and link_ method; spot_market_backend functions that fill in default columns'), ('handed out tables', H + 'constraints.py ConstraintData')],
     ['tables before and after each call, dispatch and reports of every market, tables returned by the builders'])

prop('C28', 'A recreated historical interval is dispatched from its own records',
     'Following the documented procedure for recreating a historical interval (units, interconnectors, constraints and demand loaded from the interval\'s file and database, two dispatch runs with fast start commitment in between, optionally again after an input of the constraint right hand sides is changed) never fails on complete records, and ends in a dispatch that is least cost under every limit the records state: '
     'supply and losses meet each region\'s recorded demand, no unit exceeds what it offered in the file, links stay within recorded limits, and every recorded constraint is applied with its recorded or recalculated right hand side.',
     ['inputs', 'histories'],
     'all intervals: unit mixes, offers, profiles, missing telemetry, networks, constraint sets, interventions and their order of loading',
     'the repository\'s own full recreation tests need a downloaded archive; hand-offs between the builders and the market are otherwise only exercised on one-row tables',
     [M, H + 'loaders.py', H + 'xml_cache.py', H + 'mms_db.py', H + 'units.py', H + 'interconnectors.py', H + 'constraints.py', H + 'demand.py', H + 'rhs_calculator.py'],
     [('documented procedure', 'examples/all_features_example_except_basslink.py'), ('hand-off of tables', H + 'units.py, constraints.py, interconnectors.py; ' + M + ' set_ methods'), ('solution', 'src/nempy/spot_market_backend/solver_interface.py optimize')],
     ['dispatch, flows, losses, prices, violation degrees and availability of every run against the file and database'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
