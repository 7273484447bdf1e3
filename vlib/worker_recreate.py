"""Recreates the dispatch of one historical interval the way the documentation does, and records every call made on the market.

The record has the same form as a generated market job, so the same oracles judge it.  This file only drives and records.
"""
import os, sqlite3, warnings
import numpy as np
from worker import err, from_df, clean, to_df, report
from worker_hist import Scratch, WEB


class Recorder:
    def __init__(self, info, regions):
        self.info, self.regions = info, regions
        self.calls, self.res = [], []
        self.market = None

    def open(self):
        from nempy import markets
        self.market = markets.SpotMarket(market_regions=list(self.regions), unit_info=self.info)

    def __call__(self, name, **a):
        rec = {}
        for k, v in a.items():
            if hasattr(v, 'columns'):
                t = v.copy()
                if 'loss_function' in t.columns:
                    bp = a['interpolation_break_points']
                    spec = []
                    for _, r in v.iterrows():
                        xs = sorted(float(x) for x in bp[(bp['interconnector'] == r['interconnector']) & (bp['link'] == r['link'])]['break_point'])
                        spec.append({'pw': [xs, [float(r['loss_function'](x)) for x in xs]]})
                    fns = spec
                    t = from_df(t.drop(columns=['loss_function']))
                    t['cols'].append('loss_function')
                    for row, s in zip(t['rows'], fns):
                        row.append(s)
                    t['types'] = {'loss_function': 'fn'}
                    rec[k] = t
                else:
                    rec[k] = from_df(t)
            else:
                rec[k] = clean(v)
        self.calls.append({'m': name, 'a': rec})
        getattr(self.market, name)(**a)
        self.res.append({'ok': True})

    def report(self):
        self.calls.append({'report': True})
        self.res.append(report(self.market))


def run_recreate(job):
    from nempy.historical_inputs import mms_db, xml_cache, loaders, units, interconnectors, demand, constraints, rhs_calculator
    from nempy.help_functions.helper_functions import update_rhs_values
    opt = job['options']
    with Scratch() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cache = os.path.join(d, 'cache')
        os.mkdir(cache)
        for n, t in job['texts'].items():
            with open(os.path.join(cache, n), 'w', encoding='utf-8') as f:
                f.write(t)
        con = sqlite3.connect(os.path.join(d, 'h.db'))
        rec = None
        stage = ['load']
        try:
            db = mms_db.DBManager(con)
            db.create_tables()
            for name, t in job['db'].items():
                to_df(t).to_sql(name, con=con, if_exists=t.get('mode', 'append'), index=False)
            con.commit()
            WEB['fn'], WEB['log'] = (lambda url: (404, b'')), []
            xml = xml_cache.XMLCacheManager(cache)
            L = loaders.RawInputsLoader(xml, db)
            L.set_interval(job['interval'])

            def get(obj, name, *a, **k):
                stage[0] = name
                return getattr(obj, name)(*a, **k)
            U, I, C, D = units.UnitData(L), interconnectors.InterconnectorData(L), constraints.ConstraintData(L), demand.DemandData(L)
            info = get(U, 'get_unit_info')
            rec = Recorder(info, job['regions'])
            stage[0] = 'market'
            rec.open()
            cvp = lambda k: get(C, 'get_constraint_violation_prices')[k]

            def do(name, **a):
                stage[0] = 'market.' + name
                rec(name, **a)

            def bids():
                v, p = get(U, 'get_processed_bids')
                do('set_unit_volume_bids', volume_bids=v)
                do('set_unit_price_bids', price_bids=p)

            def limits():
                t = get(U, 'get_unit_bid_availability')
                if opt['elastic_later']:
                    do('set_unit_bid_capacity_constraints', unit_limits=t)
                    do('make_constraints_elastic', constraints_key='unit_bid_capacity', violation_cost=cvp('unit_capacity'))
                else:
                    do('set_unit_bid_capacity_constraints', unit_limits=t, violation_cost=cvp('unit_capacity'))

            def uigf():
                t = get(U, 'get_unit_uigf_limits')
                if opt['elastic_later']:
                    do('set_unconstrained_intermittent_generation_forecast_constraint', unit_limits=t)
                    do('make_constraints_elastic', constraints_key='uigf_capacity', violation_cost=cvp('uigf'))
                else:
                    do('set_unconstrained_intermittent_generation_forecast_constraint', unit_limits=t, violation_cost=cvp('uigf'))

            def ramps(run, profiles):
                cols = ['unit', 'current_mode'] if run == 'fast_start_first_run' else ['unit', 'end_mode', 'time_since_end_of_mode_two', 'min_loading']
                fsp = profiles.loc[:, cols]
                do('set_unit_ramp_rate_constraints', ramp_details=get(U, 'get_bid_ramp_rates'), scada_ramp_rates=get(U, 'get_scada_ramp_rates'),
                   fast_start_profiles=fsp, run_type=run, violation_cost=cvp('ramp_rate'))
                do('set_joint_ramping_constraints_reg', scada_ramp_rates=get(U, 'get_scada_ramp_rates', inlude_initial_output=True), fast_start_profiles=fsp, run_type=run,
                   violation_cost=cvp('fcas_profile'))

            def trapeziums():
                do('set_fcas_max_availability', fcas_max_availability=get(U, 'get_fcas_max_availability'), violation_cost=cvp('fcas_max_avail'))
                do('set_energy_and_regulation_capacity_constraints', regulation_trapeziums=get(U, 'get_fcas_regulation_trapeziums'), violation_cost=cvp('fcas_profile'))
                do('set_joint_capacity_constraints', contingency_trapeziums=get(U, 'get_contingency_services'), violation_cost=cvp('fcas_profile'))

            def links():
                do('set_interconnectors', interconnector_directions_and_limits=get(I, 'get_interconnector_definitions'))
                f, b = get(I, 'get_interconnector_loss_model')
                do('set_interconnector_losses', loss_functions=f, interpolation_break_points=b)

            held = {}

            def sets(new=None):
                for k, getter in (('f', 'get_fcas_requirements'), ('g', 'get_rhs_and_type_excluding_regional_fcas_constraints')):
                    if k not in held:
                        held[k] = get(C, getter)
                    if new is not None:
                        stage[0] = 'update_rhs_values'
                        held[k] = update_rhs_values(held[k], new)
                cost = get(C, 'get_violation_costs')
                do('set_fcas_requirements_constraints', fcas_requirements=held['f'], violation_cost=cost)
                do('set_generic_constraints', generic_constraint_parameters=held['g'], violation_cost=cost)

            def lhs():
                do('link_units_to_generic_constraints', unit_coefficients=get(C, 'get_unit_lhs'))
                do('link_interconnectors_to_generic_constraints', interconnector_coefficients=get(C, 'get_interconnector_lhs'))

            def load():
                do('set_demand_constraints', demand=get(D, 'get_operational_demand'), violation_cost=cvp('regional_demand'))

            stage[0] = 'get_fast_start_profiles_for_dispatch'
            first = get(U, 'get_fast_start_profiles_for_dispatch')
            bids()
            limits()
            uigf()
            if opt['ramps_first']:
                ramps('fast_start_first_run', first)
            get(U, 'add_fcas_trapezium_constraints')
            if not opt['ramps_first']:
                ramps('fast_start_first_run', first)
            trapeziums()
            links()
            sets()
            lhs()
            load()
            if opt['tiebreak']:
                do('set_tie_break_constraints', cost=cvp('tiebreak'))
            do('dispatch')
            rec.report()

            def second():
                stage[0] = 'get_unit_dispatch'
                p = get(U, 'get_fast_start_profiles_for_dispatch', rec.market.get_unit_dispatch())
                do('set_fast_start_constraints', fast_start_profiles=p.loc[:, ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading']],
                   violation_cost=cvp('fast_start'))
                ramps('fast_start_second_run', p)
                do('dispatch')
                rec.report()
            second()
            if opt.get('switch'):
                # a measured value is changed and everything that depends on it recomputed, as in the switch run example
                R = rhs_calculator.RHSCalc(xml)
                stage[0] = 'update_spd_id_value'
                R.update_spd_id_value(*opt['switch'])
                stage[0] = 'get_rhs_constraint_equations_that_depend_value'
                deps = R.get_rhs_constraint_equations_that_depend_value(opt['switch'][0], opt['switch'][1])
                stage[0] = 'compute_constraint_rhs'
                sets(R.compute_constraint_rhs(deps))
                ramps('fast_start_first_run', first)
                do('remove_fast_start_constraints')
                do('dispatch')
                rec.report()
                second()
            return {'calls': rec.calls, 'res': rec.res, 'info': from_df(info), 'ok': True}
        except Exception as e:
            return {'ok': False, 'stage': stage[0], 'error': err(e), 'info': from_df(info) if rec else None, 'calls': rec.calls if rec else [], 'res': rec.res if rec else []}
        finally:
            con.close()


HANDLERS = {'recreate': run_recreate}
