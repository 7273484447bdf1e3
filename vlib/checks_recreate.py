"""C28: one historical interval recreated from its file and database, the whole documented procedure at once.

The worker follows the documented procedure on a synthetic interval and records every call the tables lead to; the market oracle
judges each dispatch of that record, and a second, independent account is settled against the interval's records themselves.
"""
import copy, datetime as dt, hashlib, json, random
import gen_interval as G
import gen_units as GU
from checks_bids import expected_bids
from checks_network import expected_network, losses, network, SV, REL
from checks_units import end_state, expected_units
from checks_xml import compare_rows, rows_of, same
from checks_rhs import xml_term
from monitor import Judge, Obs, dispatch_index

INV = {v: k for k, v in G.CODES.items()}


def r1(rng, lo, hi, d=1):
    return round(rng.uniform(lo, hi), d)


def scenario(rng):
    t, rec, units, db = GU.interval(rng, p_fast=0.0, n=rng.choice([5, 7, 9, 12]))
    # an interval always has a forecast unit, a fast start unit, both regulation services and a contingency service
    used = {u['trader']['id'] for u in units}
    names = [n for n in GU.NAMES if n not in used]
    iv = rec['intervention']
    kinds = ['SEMI'] + ['GEN'] * rng.choice([1, 2]) + (['BDU'] if rng.random() < .5 else [])
    extra = []
    for i, k in enumerate(kinds):
        u = GU.make_unit(rng, rng.choice([n for n in names if n not in {e['trader']['id'] for e in extra}]), k, iv, GU.fast_start if k == 'GEN' else None)
        extra.append(u)
    for u in units:
        if u['kind'] in ('GEN', 'LOAD') and rng.random() < 0.25:
            u['trader']['fs'] = GU.fast_start(rng, u['cap'])
    return t, rec, units, extra, db


def price_steps(rng, n=10):
    lo, hi = rng.choice([(-1000.0, 15000.0), (0.0, 300.0), (-50.0, 120.0)])
    return sorted({r1(rng, lo, hi, 2) for _ in range(n)})


class Recreate:
    ID = 'C28'
    CASES = {'quick': 200, 'thorough': 6000}
    RULE = ('one evaluation = one synthetic interval (units, network, demand, requirements, generic constraints; file and database in scratch) recreated by the documented procedure: '
            'first run, fast start commitment, second run, sometimes again after a measured value is changed; every table handed over is recorded, every dispatch is '
            'compared with an independent model of the recorded calls and settled against the records; non-trivial = a fast start unit ended inside its profile or a unit gave '
            'energy and FCAS together; distinct = hash of the file and database')
    ASSUMPTIONS = ['interval files and database rows are synthetic', 'an interval has a semi-scheduled unit, a fast start unit, regulation and contingency offers, as every real one has',
                   'units offered in the file are in the unit register and in the dispatch records', 'violation prices are 2e4 to 2e5 so that costs stay comparable to solver tolerance']
    MIN_EVENTS = {'dispatches': 500, 'solved': 500, 'balances': 2000, 'offers': 5000, 'tables_settled': 3000, 'profiles_settled': 200}

    def build(self, rng):
        t, rec, units, extra, db = scenario(rng)
        units = units + extra
        for u in units:
            u['listed'], u['in_load'] = True, True
            tr = u['trader']
            # prices of one unit share steps with others now and then, so that bids tie
        now = G.stamp(t)
        ties = price_steps(rng)
        for u in units:
            for p in u['trader']['prices']:
                if rng.random() < .5:
                    ps = sorted(rng.choice(ties) if rng.random() < .6 else r1(rng, -1000, 15000, 2) for _ in range(10))
                    p['bands'] = [GU.s(x) for x in ps]
        # contingency offers of a two sided unit are one for the unit, listed on its generating side
        for u in units:
            if u['kind'] == 'BDU':
                for k in ('trades', 'prices'):
                    u['trader'][k] = [b for b in u['trader'][k] if not (b['type'] in INV and not INV[b['type']].endswith('REG') and b['dir'] == 'LOAD')]
        units = [u for u in units if u['trader']['trades']]          # a unit in the file offers something
        # one unit that is enabled for all three kinds of service
        u = next(x for x in extra if x['kind'] == 'GEN')
        c = float(u['cap'])
        u['trader']['init'].update({'InitialMW': GU.s(c / 2), 'AGCStatus': '1', 'SCADARampUpRate': GU.s(c * 60), 'SCADARampDnRate': GU.s(c * 60)})
        if 'WhatIfInitialMW' in u['trader']['init']:
            u['trader']['init']['WhatIfInitialMW'] = GU.s(c / 2)
        u['agc'] = {d + 'REGENABLEMENT' + e: (c if e == 'MAX' else 0.0) for d in ('RAISE', 'LOWER') for e in ('MAX', 'MIN')}
        own = [G.CODES[x] for x in ('RAISEREG', 'LOWERREG', 'RAISE6SEC')]
        u['trader']['trades'] = [b for b in u['trader']['trades'] if b['type'] not in own + [G.ENERGY_CODE['GENERATOR']]]
        u['trader']['prices'] = [b for b in u['trader']['prices'] if b['type'] not in own + [G.ENERGY_CODE['GENERATOR']]]
        u['trader']['trades'].append({'type': G.ENERGY_CODE['GENERATOR'], 'dir': None, 'bands': [GU.s(c / 10)] * 10, 'max': GU.s(c), 'rdn': GU.s(c * 30), 'rup': GU.s(c * 30)})
        for code in own:
            u['trader']['trades'].append({'type': code, 'dir': None, 'bands': [GU.s(round(.2 * c, 1))] + ['0'] * 9, 'max': GU.s(round(.2 * c, 1)), 'enmin': '0', 'low': GU.s(c * .25),
                                          'high': GU.s(c * .75), 'enmax': GU.s(c)})
        for code in own + [G.ENERGY_CODE['GENERATOR']]:
            u['trader']['prices'].append({'type': code, 'dir': None, 'bands': [GU.s(x * 7 + 1) for x in range(10)]})
        rec['traders'] = [u['trader'] for u in units]
        det, load = [], []
        dcols = db['DUDETAILSUMMARY']['cols']
        lcols = db['DISPATCHLOAD']['cols']
        for u in units:
            d = u['trader']['id']
            det.append({'DUID': d, 'START_DATE': G.stamp(t - dt.timedelta(days=rng.choice([0, 1, 300]))), 'END_DATE': G.stamp(t + dt.timedelta(days=rng.choice([1, 400]))),
                        'DISPATCHTYPE': {'LOAD': 'LOAD', 'BDU': 'BIDIRECTIONAL'}.get(u['kind'], 'GENERATOR'), 'CONNECTIONPOINTID': 'CP' + d, 'REGIONID': u['region'],
                        'TRANSMISSIONLOSSFACTOR': u['tlf'], 'DISTRIBUTIONLOSSFACTOR': u['dlf'], 'SCHEDULE_TYPE': 'SCHEDULED', 'SECONDARY_TLF': u['tlf2']})
            load.append(dict({'SETTLEMENTDATE': now, 'DUID': d, 'INITIALMW': 1.0, 'AGCSTATUS': '1'}, **u['agc']))
        ndb_nets, ndb = network(rng, t, wide=True)
        ndb['DUDETAILSUMMARY'] = {'cols': dcols, 'rows': [[x[c] for c in dcols] for x in det]}
        ndb['DISPATCHLOAD'] = {'cols': lcols, 'rows': [[x[c] for c in lcols] for x in load]}
        nets = ndb_nets
        if len(nets) < 2:
            return self.build(rng)
        rec['inters'] = [{'id': x['id'], 'mnsp': x['mnsp'], 'from': x['from'], 'to': x['to'], 'offers': [(l['to'], repr(l['avail'])) for l in x.get('links', [])]} for x in nets]
        for n in G.VPRICE.values():
            rec['case'][n] = GU.s(rng.choice([2e4, 3e4, 5e4, 1e5, 2e5, r1(rng, 2e4, 2e5, 0)]))
        rec['case']['TieBreakPrice'] = rng.choice(['1e-6', '0.000001', '0.0001'])
        # what could be produced where
        avail = {g: 0.0 for g in G.REGIONS}
        base = {g: 0.0 for g in G.REGIONS}
        fc = {}
        for u in units:
            i = u['trader']['init']
            base[u['region']] += float(i.get('WhatIfInitialMW', i['InitialMW'])) * (-1 if u['kind'] == 'LOAD' else 1)
            for b in u['trader']['trades']:
                m = min(float(b['max']), sum(float(x) for x in b['bands']))
                if b['type'] in INV:
                    fc.setdefault(INV[b['type']], []).append((u['region'], m))
                elif not (b['dir'] == 'LOAD' or u['kind'] == 'LOAD'):
                    avail[u['region']] += m
        dem = {}
        for g in G.REGIONS:
            k = rng.random()
            d = 0.0 if k < .05 else max(0.0, round(base[g] * rng.uniform(.85, 1.15) + rng.uniform(-20, 20), 2)) if k < .7 else \
                r1(rng, 0, max(avail[g], 10.0), 2) if k < .9 else r1(rng, 0, avail[g] * 1.5 + 50, 2)
            dem[g] = (d, r1(rng, -100, 100, 3), r1(rng, 300, 9000, 2))
        rows = [[now, g, a, b, c] for g, (a, b, c) in dem.items()]
        rng.shuffle(rows)
        ndb['DISPATCHREGIONSUM'] = {'cols': ['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'], 'rows': rows}
        cons, rhs = [], {}
        k = 0
        for svc in sorted(fc):
            for _ in range(rng.choice([0, 1, 1, 2])):
                regs = G.REGIONS if rng.random() < .4 else rng.sample(G.REGIONS, rng.randint(1, 4))
                tot = sum(m for g, m in fc[svc] if g in regs)
                c = {'id': 'F_%s+%d' % (rng.choice(['I', 'T', 'MAIN']), k), 'type': rng.choice(['GE'] * 8 + ['LE', 'EQ']), 'price': GU.s(rng.choice([2e4, 4e4, 1e5])),
                     'region': [(g, G.CODES[svc], '1') for g in regs], 'unit': [], 'inter': []}
                if rng.random() < .15:
                    c['inter'] = [(rng.choice(nets)['id'], GU.s(rng.choice([1, -1, .1])))]
                rhs[c['id']] = r1(rng, 0, max(tot, 1) * rng.choice([.4, .8, 1.2]), 2)
                cons.append(c)
                k += 1
        for _ in range(rng.randint(2, 6)):
            c = {'id': rng.choice(['N^^', 'S>>', '#', 'V::']) + 'C%d' % k, 'type': rng.choice(['LE', 'LE', 'GE', 'EQ']), 'price': GU.s(rng.choice([2e4, 4e4, 1e5])), 'region': [],
                 'unit': [], 'inter': []}
            mid = 0.0
            for u in rng.sample(units, min(len(units), rng.choice([0, 1, 2, 3]))):
                b = rng.choice(u['trader']['trades'])
                f = rng.choice([1.0, -1.0, r1(rng, -2, 2, 3)])
                c['unit'].append((u['trader']['id'], b['type'], GU.s(f)))
                mid += f * min(float(b['max']), sum(float(x) for x in b['bands'])) * rng.random()
            for x in rng.sample(nets, rng.choice([0, 0, 1, 2])):
                f = rng.choice([1.0, -1.0, r1(rng, -2, 2, 3)])
                c['inter'].append((x['id'], GU.s(f)))
                mid += f * r1(rng, -100, 100)
            rhs[c['id']] = round(mid, 2)
            cons.append(c)
            k += 1
        if len(cons) < 2 or not any(c['region'] for c in cons):
            return self.build(rng)
        # constraints measured through one telemetered switch
        switch = None
        if rng.random() < .4:
            v0, v1 = rng.choice([('1', '0'), ('0', '1'), ('20', '55.5')])
            rec['scada'] = [{'type': ty, 'good': [{'SpdID': s, 'Value': v, 'EMS_ID': 'MW', 'EMS_Good': 'True', 'Can_Use_Value': 'True'} for s, v in q]}
                            for ty, q in (('W', [('BL_FREQ_ONSTATUS', v0), ('OTHER', '7')]), ('A', [('MW_A', '10'), ('MW_B', '4')]))]
            rec['entered'] = [('MW_A', '1'), ('MW_B', '2')]
            rec['equations'] = [{'id': e, 'terms': [xml_term({'id': '1', 'type': 'A', 'sid': 'MW_A', 'factor': '1', 'default': '0'})]} for e in ('EQ0', 'EQ1')]
            sw = {}
            for c in rng.sample(cons, min(len(cons), rng.randint(1, 3))):
                f = GU.s(rng.choice([5.0, -5.0, 40.0, .5]))
                base = rhs[c['id']]
                if rng.random() < .3:          # the recomputed value is exactly nothing
                    base = -float(f) * float(v1)
                terms = [xml_term({'id': '1', 'type': 'W', 'sid': 'BL_FREQ_ONSTATUS', 'factor': f, 'default': '0'}),
                         xml_term({'id': '2', 'type': 'C', 'sid': 'CONST', 'factor': GU.s(base), 'default': '0'})]
                c['terms'] = terms
                rhs[c['id']] = base + float(f) * float(v0)
                sw[c['id']] = base + float(f) * float(v1)
            switch = (('BL_FREQ_ONSTATUS', 'W', v1), sw)
            for c in cons:
                if 'terms' not in c:
                    c['terms'] = [xml_term({'id': '1', 'type': 'A', 'sid': 'MW_A', 'factor': '1', 'default': '0'})]
        rng.shuffle(cons)
        rec['constraints'] = cons
        runs = ['0', '1'] if rec['intervention'] else ['0']
        rec['constraint_solutions'] = [{'ConstraintID': c['id'], 'Intervention': q, 'RHS': repr(rhs[c['id']] if q == '0' else 1.5), 'MarginalValue': '0'} for c in cons for q in runs]
        rng.shuffle(rec['constraint_solutions'])
        opt = {'elastic_later': rng.random() < .5, 'ramps_first': rng.random() < .5, 'tiebreak': rng.random() < .7, 'switch': list(switch[0]) if switch else None}
        job = {'kind': 'recreate', 'regions': G.REGIONS, 'texts': {G.interval_file(t, False): G.to_xml(rec, rng)}, 'db': ndb, 'interval': rec['interval'], 'options': opt}
        truth = {'demand': {g: v[0] for g, v in dem.items()}, 'rhs': rhs, 'switched': switch[1] if switch else {}, 'type': {c['id']: REL[c['type']] for c in cons},
                 'fcas': [c['id'] for c in cons if c['region']]}
        offers = {}
        for u in units:
            for b in u['trader']['trades']:
                side = {'GEN': 'generator', 'LOAD': 'load', None: 'load' if u['kind'] == 'LOAD' else 'generator'}[b['dir']]
                svc = SV[b['type']]
                offers[(u['trader']['id'], side, svc)] = (sum(float(x) for x in b['bands']), float(b['max']))
        truth['offers'] = offers
        truth['region'] = {u['trader']['id']: u['region'] for u in units}
        truth['nets'] = {}
        for x in nets:
            if x['mnsp']:
                for l in x['links']:
                    truth['nets'][(x['id'], l['link'])] = (l['from'], l['to'], l['ftlf'], l['ttlf'], 1.0 if x['id'] == 'T-V-MNSP1' else x['share'], 0.0, l['avail'])
            else:
                truth['nets'][(x['id'], x['id'])] = (x['from'], x['to'], 1.0, 1.0, x['share'], -x['imp'], x['exp'])
        truth['fast'] = {u['trader']['id'] for u in units if u['trader']['fs']}
        truth['record'] = (t, rec, units, nets, dem)
        return job, truth

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        job, truth = self.build(rng)
        ctx.sig = hashlib.sha256((list(job['texts'].values())[0] + json.dumps(job['db'], sort_keys=True)).encode()).hexdigest()[:16]
        r = ctx.run(job, timeout=120)
        if r is None:
            return
        ctx.replay = {'job': job}
        self.tables(ctx, r, truth)
        if not r['ok'] and r['stage'] == 'market.dispatch' and r['error']['err'] == 'ValueError' and 'infeasible' in r['error']['msg']:
            mj = {'kind': 'market', 'regions': job['regions'], 'unit_info': r['info'], 'calls': r['calls']}
            j = Judge(mj, {'init': {'ok': True}, 'calls': r['res'] + [r['error']]}, stats=ctx.stats)
            j.status()
            ctx.findings += [dict(f) for f in j.findings]
            return
        if not r['ok']:
            ctx.fail('procedure', 'recreating %s stopped at %s: %s' % (job['interval'], r['stage'], r['error']))
            return
        mj = {'kind': 'market', 'regions': job['regions'], 'unit_info': r['info'], 'calls': r['calls']}
        mres = {'init': {'ok': True}, 'calls': r['res']}
        ctx.count('calls_recorded', len(r['calls']))
        for n, at in enumerate(dispatch_index(mj)):
            ctx.count('dispatches')
            j = Judge(mj, mres, at=at, stats=ctx.stats)
            if j.status():
                j.offers()
                j.groups()
                j.interconnectors()
                j.optimal()
                j.summary()
                j.availability()
                if n % 2 and not j.findings:
                    j.prices()
                self.account(ctx, j, truth, switched=n >= 2)
                both = {k[0] for k, v in j.obs.disp.items() if v > 1e-3 and k[2] == 'energy'} & {k[0] for k, v in j.obs.disp.items() if v > 1e-3 and k[2] != 'energy'}
                ctx.nontrivial |= bool(both) or any(c['group'] == 'fast_start' for c in j.ref.lp.cons)
            for f in j.findings:
                f = dict(f)
                f['msg'] = 'dispatch %d of %s: %s' % (n + 1, job['interval'], f.get('msg'))
                ctx.findings.append(f)
        ctx.sample = {'interval': job['interval'], 'units': len(truth['region']), 'sets': len(truth['rhs']), 'calls': [c.get('m') for c in r['calls']][:60]}

    def tables(self, ctx, r, truth):
        """every table handed to the market against one computed from the interval's records"""
        t, rec, units, nets, dem = truth['record']
        T = G.truth(rec)
        exp, fs, _ = expected_units(t, T, units)
        net, ln = expected_network(T, nets, dem)
        x = expected_bids(t, T, units)
        price = T['get_constraint_violation_prices']
        trap = x['trap']
        cost = net['get_violation_costs']
        rhs = dict(truth['rhs'])
        req = net['get_fcas_requirements']
        gen = net['get_rhs_and_type_excluding_regional_fcas_constraints']
        plain = {'set_unit_volume_bids': {'volume_bids': x['vols']}, 'set_unit_price_bids': {'price_bids': x['prices']},
                 'set_unit_bid_capacity_constraints': {'unit_limits': exp['get_unit_bid_availability']},
                 'set_unconstrained_intermittent_generation_forecast_constraint': {'unit_limits': exp['get_unit_uigf_limits']},
                 'set_unit_ramp_rate_constraints': {'ramp_details': exp['get_bid_ramp_rates'], 'scada_ramp_rates': exp['get_scada_ramp_rates']},
                 'set_joint_ramping_constraints_reg': {'scada_ramp_rates': exp['get_scada_ramp_rates+']},
                 'set_fcas_max_availability': {'fcas_max_availability': [{c: q[c] for c in ('unit', 'service', 'dispatch_type', 'max_availability')} for q in trap]},
                 'set_energy_and_regulation_capacity_constraints': {'regulation_trapeziums': [q for q in trap if q['service'].endswith('reg')]},
                 'set_joint_capacity_constraints': {'contingency_trapeziums': [q for q in trap if not q['service'].endswith('reg')]},
                 'set_interconnectors': {'interconnector_directions_and_limits': net['get_interconnector_definitions']},
                 'link_units_to_generic_constraints': {'unit_coefficients': net['get_unit_lhs']},
                 'link_interconnectors_to_generic_constraints': {'interconnector_coefficients': net['get_interconnector_lhs']},
                 'set_demand_constraints': {'demand': net['get_operational_demand']}}
        vp = {'set_unit_bid_capacity_constraints': 'unit_capacity', 'set_unconstrained_intermittent_generation_forecast_constraint': 'uigf', 'set_unit_ramp_rate_constraints': 'ramp_rate',
              'set_joint_ramping_constraints_reg': 'fcas_profile', 'set_fcas_max_availability': 'fcas_max_avail', 'set_energy_and_regulation_capacity_constraints': 'fcas_profile',
              'set_joint_capacity_constraints': 'fcas_profile', 'set_demand_constraints': 'regional_demand', 'set_fast_start_constraints': 'fast_start'}
        disp, seen = {}, 0

        def table(call, name, want, got):
            ctx.count('tables_settled')
            m = compare_rows(want, got)
            if m:
                ctx.fail('tables', '%s of %s at %s is not what the records give: %s' % (name, call, rec['interval'], m))

        if r['info'] is not None:
            table('SpotMarket', 'unit_info', exp['get_unit_info'], r['info'])
        for c, res in zip(r['calls'], r['res']):
            if c.get('report'):
                disp = Obs(res).disp
                continue
            m, a = c['m'], c.get('a', {})
            for name, want in plain.get(m, {}).items():
                table(m, name, want, a.get(name))
            if m in vp and a.get('violation_cost') is not None and not same(float(a['violation_cost']), price[vp[m]]):
                ctx.fail('tables', 'violation cost %s of %s, the file has %s' % (a['violation_cost'], m, price[vp[m]]))
            if m == 'make_constraints_elastic':
                k = {'unit_bid_capacity': 'unit_capacity', 'uigf_capacity': 'uigf'}[a['constraints_key']]
                if not same(float(a['violation_cost']), price[k]):
                    ctx.fail('tables', 'violation cost %s of %s, the file has %s' % (a['violation_cost'], k, price[k]))
            if m == 'set_tie_break_constraints' and not same(float(a['cost']), price['tiebreak']):
                ctx.fail('tables', 'tie break cost %s, the file has %s' % (a['cost'], price['tiebreak']))
            if m in ('set_fcas_requirements_constraints', 'set_generic_constraints'):
                if m == 'set_fcas_requirements_constraints':
                    seen += 1
                if seen > 1:
                    rhs.update(truth['switched'])
                if m == 'set_fcas_requirements_constraints':
                    table(m, 'fcas_requirements', [dict(q, volume=rhs[q['set']]) for q in req], a['fcas_requirements'])
                else:
                    table(m, 'generic_constraint_parameters', [dict(q, rhs=rhs[q['set']]) for q in gen], a['generic_constraint_parameters'])
                table(m, 'violation_cost', cost, a['violation_cost'])
            if m == 'set_interconnector_losses':
                self.loss_table(ctx, a, ln, dem, table)
            if a.get('fast_start_profiles') is not None:
                if a.get('run_type') == 'fast_start_first_run':
                    table(m, 'fast_start_profiles', exp['fs0'], a['fast_start_profiles'])
                else:
                    self.profiles(ctx, m, a['fast_start_profiles'], fs, disp)

    @staticmethod
    def loss_table(ctx, a, ln, dem, table):
        want = {(d['interconnector'], d['link']): (d['generic_constraint_factor'], x) for d, x in ln}
        table('set_interconnector_losses', 'interpolation_break_points', [{'interconnector': k[0], 'link': k[1], 'break_point': b * f} for k, (f, x) in want.items() for b in x['bp']],
              a['interpolation_break_points'])
        table('set_interconnector_losses', 'loss_functions', [{'interconnector': k[0], 'link': k[1], 'from_region_loss_share': 1.0 if k[0] == 'T-V-MNSP1' else x['share']}
                                                              for k, (f, x) in want.items()], a['loss_functions'])
        for row in rows_of(a['loss_functions']):
            f, x = want.get((row['interconnector'], row['link']), (None, None))
            if x is None:
                continue
            for p, y in zip(*row['loss_function']['pw']):
                e = losses(x, p * f, dem)
                ctx.count('loss_values')
                if abs(e - y) > 1e-6 * max(1.0, abs(e)):
                    ctx.fail('tables', 'losses of %s at %s MW are %s, the records give %s' % (row['link'], p, y, e))

    @staticmethod
    def profiles(ctx, call, tab, fs, disp):
        got = {row['unit']: row for row in rows_of(tab)}
        for nm, f in fs.items():
            x = max((v for k, v in disp.items() if k[0] == nm and k[2] == 'energy'), key=abs, default=None)
            if nm not in got:
                if x is not None:
                    ctx.fail('tables', 'fast start unit %s has no profile in %s' % (nm, call))
                continue
            if x is None or 0 < abs(x) < 0.01 or (f['CurrentMode'] == 0 and f['CurrentModeTime'] and x > 0):
                continue
            ctx.count('profiles_settled')
            mode, tm, since = end_state(f, x > 0)
            g = got[nm]
            for c, v in (('end_mode', mode), ('time_in_end_mode', tm), ('mode_two_length', float(f['T2'])), ('mode_four_length', float(f['T4'])), ('min_loading', float(f['MinLoadingMW']))):
                if c in g and (g[c] is None or abs(g[c] - v) > 1e-9):
                    ctx.fail('tables', 'fast start unit %s in %s: %s %s, expected %s (dispatch %s)' % (nm, call, c, g[c], v, x))
            if 'time_since_end_of_mode_two' in g:
                z = g['time_since_end_of_mode_two']
                if (since is not None and (z is None or abs(z - since) > 1e-9)) or (since is None and z is not None and z < 5.0):
                    ctx.fail('tables', 'fast start unit %s in %s: time since the end of mode two %s, expected %s' % (nm, call, z, since))

    def account(self, ctx, j, truth, switched):
        """the reported dispatch against the records themselves"""
        o = j.obs
        gap = {g: -d for g, d in truth['demand'].items()}
        for (u, side, svc), v in o.disp.items():
            off = truth['offers'].get((u, side, svc))
            if off is None:
                if v > 1e-3:
                    ctx.fail('records', '%s is dispatched for %s %s, which is not offered in the file' % (u, side, svc))
                continue
            ctx.count('offers_settled')
            if v > off[0] + 1e-3:
                ctx.fail('records', '%s %s %s: %.6f MW dispatched, %.6f offered in the file' % (u, side, svc, v, off[0]))
            if svc == 'energy':
                gap[truth['region'][u]] += v if side == 'generator' else -v
        for k, (a, b, fl, tl, share, lo, hi) in truth['nets'].items():
            if k not in o.flow:
                ctx.fail('records', 'interconnector link %s of the records has no reported flow' % (k,))
                continue
            f, L = o.flow[k], o.loss.get(k, 0.0)
            if f < lo - 1e-3 or f > hi + 1e-3:
                ctx.fail('records', 'flow %.4f of %s outside its recorded limits [%s, %s]' % (f, k, lo, hi))
            gap[b] += tl * f - (1 - share) * L
            gap[a] -= fl * f + share * L
        tot = sum(abs(x) for x in gap.values())
        rep = o.viol.get('demand')
        ctx.count('balances', len(gap))
        ctx.count('unserved', tot > 1e-2)
        if not isinstance(rep, (int, float)) or abs(tot - rep) > 5e-2:
            ctx.fail('records', 'supply misses the recorded demand by %.4f MW, reported violation is %s (%s)' % (tot, rep, {g: round(x, 4) for g, x in gap.items()}))
        # each set of the records is in the market with its recorded, or recomputed, right hand side
        want = dict(truth['rhs'])
        if switched:
            want.update(truth['switched'])
        for c in j.ref.lp.cons:
            if c['group'] in ('fcas', 'generic'):
                ctx.count('sets_settled')
                e = want.pop(c['key'], None)
                if e is None or abs(c['rhs'] - e) > 1e-6 or c['sense'] != truth['type'][c['key']] or (c['group'] == 'fcas') != (c['key'] in truth['fcas']):
                    ctx.fail('records', 'set %s (%s) is used with %s %s, the records have %s %s' % (c['key'], c['group'], c['sense'], c['rhs'], truth['type'].get(c['key']), e))
        for s in want:
            ctx.fail('records', 'set %s of the records is not in the market' % s)


CHECKS = [Recreate()]
