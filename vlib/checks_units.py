"""C19: unit tables and fast start states derived from a historical interval."""
import hashlib, json, random
import gen_interval as G
import gen_units as GU
from checks_xml import compare_rows, rows_of, same

SIDE = {'GENERATOR': 'generator', 'LOAD': 'load'}


def sides_of(truth, volume):
    """dispatch side of every volume bid: its own direction, else the one its price bid has"""
    pd_ = {}
    for p in truth['get_unit_price_bids']:
        pd_.setdefault((p['DUID'], p['BIDTYPE']), []).append(p['DIRECTION'])
    out = []
    for v in volume:
        for d in ([v['DIRECTION']] if v['DIRECTION'] else pd_.get((v['DUID'], v['BIDTYPE']), [])):
            out.append(dict(v, DIRECTION=d))
    return out


def loss_factors(truth, units):
    """(unit, side) -> (region, loss factor) for the units the database knows"""
    by = {u['trader']['id']: u for u in units}
    out = {}
    for p in truth['get_unit_price_bids']:
        u = by[p['DUID']]
        if not u['listed']:
            continue
        d = p['DIRECTION']
        t = u['tlf2'] if (u['tlf2'] is not None and d == 'GENERATOR' and u['kind'] == 'BDU') else u['tlf']
        out[(p['DUID'], d)] = (u['region'], t * u['dlf'])
    return out


def end_state(f, dispatched, interval=5.0):
    """advance one unit by one dispatch interval: (mode, minutes in it, minutes since the end of mode two or None)"""
    T = {1: float(f['T1']), 2: float(f['T2']), 3: float(f['T3']), 4: float(f['T4'])}
    mode, t = f['CurrentMode'], float(f['CurrentModeTime'])
    left, since = interval, None
    if mode == 0:
        if not dispatched:
            return 0, 0.0, None
        mode = 1
    while mode in (1, 2, 3) and T[mode] - t < left:
        left -= T[mode] - t
        if mode == 2:
            since = left
        mode, t = mode + 1, 0.0
    t += left
    if mode == 4:
        t = min(t, T[4])
    return mode, t, since


def expected_units(t, T, units):
    """the unit tables of an interval, from its record T and its units; also fast start parameters and initial conditions by unit"""
    vol = sides_of(T, T['get_unit_volume_bids'])
    lf = loss_factors(T, units)
    uigf = {x['DUID']: x['UIGF'] for x in T['get_UIGF_values']}
    ic = {x['DUID']: x for x in T['get_unit_initial_conditions']}
    exp = {}
    exp['get_unit_info'] = [{'unit': u, 'dispatch_type': SIDE[d], 'region': r, 'loss_factor': x} for (u, d), (r, x) in lf.items()]
    exp['get_unit_bid_availability'] = [{'unit': v['DUID'], 'dispatch_type': SIDE[v['DIRECTION']], 'capacity': v['MAXAVAIL']} for v in vol if v['BIDTYPE'] == 'ENERGY'
                                        and not (t < GU.CHANGE and v['DUID'] in uigf)]
    exp['get_unit_uigf_limits'] = [{'unit': u, 'capacity': x} for u, x in uigf.items()]
    exp['get_bid_ramp_rates'] = [{'unit': v['DUID'], 'dispatch_type': SIDE[v['DIRECTION']], 'ramp_down_rate': v['RAMPDOWNRATE'], 'ramp_up_rate': v['RAMPUPRATE'],
                                  'initial_output': ic[v['DUID']]['INITIALMW']} for v in vol if v['BIDTYPE'] == 'ENERGY']
    sc = [{'unit': u, 'scada_ramp_down_rate': x['RAMPDOWNRATE'], 'scada_ramp_up_rate': x['RAMPUPRATE'], 'initial_output': x['INITIALMW']} for u, x in ic.items()
          if x['RAMPDOWNRATE'] is not None or x['RAMPUPRATE'] is not None]
    exp['get_scada_ramp_rates'] = [{k: v for k, v in r.items() if k != 'initial_output'} for r in sc]
    exp['get_scada_ramp_rates+'] = sc
    exp['get_initial_unit_output'] = [{'unit': u, 'initial_output': x['INITIALMW']} for u, x in ic.items()]
    fs = {x['DUID']: x for x in T['get_unit_fast_start_parameters']}
    exp['fs0'] = [{'unit': u, 'current_mode': x['CurrentMode']} for u, x in fs.items()]
    return exp, fs, ic


class Units:
    ID = 'C19'
    CASES = {'quick': 2500, 'thorough': 40000}
    RULE = ('one evaluation = one synthetic interval (file and database written to scratch, read through the real loader): every unit table is requested in random order, some twice, '
            'and fast start profiles for several dispatch tables; each table is compared with one computed from the record; non-trivial = a fast start unit crosses a mode boundary or a '
            'unit has partial telemetry; distinct = hash of the record')
    ASSUMPTIONS = ['interval files and database rows are synthetic', 'the time spent in the current mode is at most that mode\'s length, zero in mode zero unless the unit stays off',
                   'fast start units are generators or loads, and dispatch in (0, 0.005] MW is not generated']
    MIN_EVENTS = {'tables_compared': 2000, 'fast_start_states': 800, 'mode_crossings': 200, 'several_modes_crossed': 40}

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        t, rec, units, db = GU.interval(rng, p_fast=0.7)
        T = G.truth(rec)
        exp, fs, ic = expected_units(t, T, units)
        ops = [{'op': 'new', 'cls': 'UnitData', 'as': 'u'}]
        keys = [None]
        names = list(exp) + rng.sample(sorted(exp), 2)
        for _ in range(rng.randint(1, 3)):
            names.append('fs1')
        if rng.random() < 0.5:
            names.insert(0, 'bids')
        rng.shuffle(names)
        disp = {}
        for nme in names:
            if nme == 'fs0':
                ops.append({'op': 'call', 'on': 'u', 'name': 'get_fast_start_profiles_for_dispatch', 'kw': {'return_all_columns': True} if rng.random() < 0.2 else {}})
            elif nme == 'fs1':
                if not fs and rng.random() < 0.7:
                    continue
                rows, dd = [], {}
                for u in units:
                    nm = u['trader']['id']
                    if nm in fs and rng.random() < 0.05:
                        continue
                    for d in ['load'] if u['kind'] == 'LOAD' else ['generator', 'load'] if u['kind'] == 'BDU' else ['generator']:
                        x = rng.choice([0.0, 0.0, round(rng.uniform(0.1, u['cap']), 2), 0.5])
                        rows.append([nm, d, 'energy', x])
                        if nm in fs:
                            dd[nm] = x
                    for svc in rng.sample(['raise_reg', 'lower_6s', 'raise_5min'], rng.randint(0, 2)):
                        rows.append([nm, 'generator', svc, round(rng.uniform(0.5, 9), 2)])
                rng.shuffle(rows)
                disp[len(ops)] = dd
                ops.append({'op': 'call', 'on': 'u', 'name': 'get_fast_start_profiles_for_dispatch', 'args': [{'cols': ['unit', 'dispatch_type', 'service', 'dispatch'], 'rows': rows,
                            'types': {'dispatch': 'float'}, 'index': None}], 'kw': {'return_all_columns': True} if rng.random() < 0.3 else {}})
            elif nme == 'bids':
                ops.append({'op': 'call', 'on': 'u', 'name': 'get_processed_bids'})
            elif nme.endswith('+'):
                ops.append({'op': 'call', 'on': 'u', 'name': nme[:-1], 'kw': {'inlude_initial_output': True}})
            else:
                ops.append({'op': 'call', 'on': 'u', 'name': nme})
            keys.append(nme)
        job = {'kind': 'hist', 'texts': {G.interval_file(t): G.to_xml(rec, rng)}, 'db': db, 'interval': rec['interval'], 'ops': ops}
        r = ctx.run(job)
        if r is None:
            return
        ctx.replay = {'job': job}
        crossed = False
        for i, (k, op, o) in enumerate(zip(keys, ops, r['res'])):
            if not o.get('ok'):
                if k == 'bids':
                    continue                       # judged by C18
                ctx.fail('raises', '%s raised %s: %s' % (op.get('name', 'UnitData()'), o.get('err'), o.get('msg')))
                continue
            if k is None or k == 'bids':
                continue
            ctx.count('tables_compared')
            if k != 'fs1':
                m = compare_rows(exp[k], o['ret'])
                if m:
                    ctx.fail('unit-table', '%s at %s: %s' % (op['name'], rec['interval'], m))
                continue
            got = {}
            for row in rows_of(o['ret']):
                if row['unit'] in got:
                    ctx.fail('fast-start', 'unit %s appears twice in the fast start profiles' % row['unit'])
                got[row['unit']] = row
            for nm, x in disp[i].items():
                f = fs[nm]
                g = got.pop(nm, None)
                if g is None:
                    ctx.fail('fast-start', 'unit %s is missing from the fast start profiles' % nm)
                    continue
                if f['CurrentMode'] == 0 and f['CurrentModeTime'] and x > 0:
                    continue            # committed with a clock left over from before: not specified
                mode, tm, since = end_state(f, x > 0)
                ctx.count('fast_start_states')
                n = mode - max(f['CurrentMode'], 1)
                if mode != f['CurrentMode']:
                    ctx.count('mode_crossings')
                    crossed = True
                if n >= 2:
                    ctx.count('several_modes_crossed')
                par = '%s (mode %d for %s min, T1-T4 %s, dispatch %s)' % (nm, f['CurrentMode'], f['CurrentModeTime'], [f['T%d' % q] for q in (1, 2, 3, 4)], x)
                for c, v in (('end_mode', mode), ('time_in_end_mode', tm), ('mode_two_length', float(f['T2'])), ('mode_four_length', float(f['T4'])), ('min_loading', float(f['MinLoadingMW']))):
                    if c not in g or g[c] is None or abs(g[c] - v) > 1e-9:
                        ctx.fail('fast-start', '%s: %s %s, expected %s' % (par, c, g.get(c), v))
                z = g.get('time_since_end_of_mode_two')
                if since is not None and (z is None or abs(z - since) > 1e-9):
                    ctx.fail('fast-start', '%s: time since the end of mode two %s, expected %s' % (par, z, since))
                if since is None and z is not None and z < 5.0:
                    ctx.fail('fast-start', '%s: time since the end of mode two %s although mode two did not end' % (par, z))
            for nm in got:
                if nm not in fs:
                    ctx.fail('fast-start', 'unit %s has no fast start parameters but has a profile' % nm)
        part = any((x['RAMPDOWNRATE'] is None) != (x['RAMPUPRATE'] is None) for x in ic.values())
        ctx.count('units', len(units))
        ctx.nontrivial = crossed or part
        ctx.sig = hashlib.md5(json.dumps([rec['traders'], sorted(map(str, disp.values()))], sort_keys=True, default=str).encode()).hexdigest()
        ctx.sample = {'interval': rec['interval'], 'units': [(u['kind'], u['trader']['id']) for u in units], 'fast_start': {u: [f['CurrentMode'], f['CurrentModeTime'], f['T1'], f['T2'], f['T3'], f['T4']] for u, f in fs.items()}}


CHECKS = [Units()]
