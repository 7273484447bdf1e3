"""C18: bids of a historical interval prepared for dispatch (scaling and enablement conditions)."""
import hashlib, json, random
import gen_interval as G
import gen_units as GU
from checks_units import SIDE, loss_factors, sides_of
from checks_xml import compare_rows, rows_of

SERVICE = {'ENERGY': 'energy', 'RAISEREG': 'raise_reg', 'LOWERREG': 'lower_reg', 'RAISE6SEC': 'raise_6s', 'RAISE1SEC': 'raise_1s', 'RAISE60SEC': 'raise_60s', 'RAISE5MIN': 'raise_5min',
           'LOWER6SEC': 'lower_6s', 'LOWER1SEC': 'lower_1s', 'LOWER60SEC': 'lower_60s', 'LOWER5MIN': 'lower_5min'}
B = [str(i) for i in range(1, 11)]


def scale(o, agc, ramp, uigf):
    """effective trapezium of one FCAS offer; returns also the rules that acted"""
    q = {k: o[k] for k in ('MAXAVAIL', 'ENABLEMENTMIN', 'LOWBREAKPOINT', 'HIGHBREAKPOINT', 'ENABLEMENTMAX')}
    acted = []
    if o['BIDTYPE'] in ('RAISEREG', 'LOWERREG'):
        d = o['BIDTYPE'][:5]
        lo, hi = agc.get(d + 'REGENABLEMENTMIN'), agc.get(d + 'REGENABLEMENTMAX')
        if lo is not None and lo != 0 and lo > q['ENABLEMENTMIN']:
            q['LOWBREAKPOINT'] += lo - q['ENABLEMENTMIN']
            q['ENABLEMENTMIN'] = lo
            acted.append('agc_min')
        if hi is not None and hi != 0 and hi < q['ENABLEMENTMAX']:
            q['HIGHBREAKPOINT'] -= q['ENABLEMENTMAX'] - hi
            q['ENABLEMENTMAX'] = hi
            acted.append('agc_max')
        r = ramp['RAMPUPRATE' if d == 'RAISE' else 'RAMPDOWNRATE']
        if r is not None and r != 0 and r / 12.0 < q['MAXAVAIL']:
            k = (r / 12.0) / q['MAXAVAIL']
            q['LOWBREAKPOINT'] = q['ENABLEMENTMIN'] + k * (q['LOWBREAKPOINT'] - q['ENABLEMENTMIN'])
            q['HIGHBREAKPOINT'] = q['ENABLEMENTMAX'] - k * (q['ENABLEMENTMAX'] - q['HIGHBREAKPOINT'])
            q['MAXAVAIL'] = r / 12.0
            acted.append('ramp')
    if uigf is not None and uigf < q['ENABLEMENTMAX']:
        q['HIGHBREAKPOINT'] -= q['ENABLEMENTMAX'] - uigf
        q['ENABLEMENTMAX'] = uigf
        acted.append('uigf')
    return q, acted


def enabled(o, q, kind, cap, x0, agc_on, other):
    """None when the offer is considered, else the condition that fails. cap: side -> energy availability or None when not limited;
    other: effective trapezium of the other side's offer of the same service, if any is on offer"""
    if not q['MAXAVAIL'] > 0:
        return 'max availability zero'
    if not any((o['BANDAVAIL' + b] or 0) > 0 for b in B):
        return 'no band'
    d = o['DIRECTION']
    reg = o['BIDTYPE'].endswith('REG')
    x = x0 if kind == 'BDU' else max(x0, 0.0)
    x = round(x, 5)
    c = cap.get(d)
    lo, hi = q['ENABLEMENTMIN'], q['ENABLEMENTMAX']
    if kind != 'BDU' or d == 'GENERATOR':
        if c is not None and c < lo:
            return 'availability below enablement min'
        if hi < 0:
            return 'enablement max below zero'
        if kind == 'BDU' and not reg and cap.get('LOAD') is not None and -cap['LOAD'] > hi:
            return 'consumption availability above enablement max'
    else:
        if lo > 0:
            return 'enablement min above zero'
        if reg and c is not None and -c > hi:
            return 'consumption availability above enablement max'
    if kind == 'BDU' and reg and other is not None:
        if d == 'GENERATOR':
            lo = other['ENABLEMENTMIN']
        else:
            hi = other['ENABLEMENTMAX']
    if not lo <= x <= hi:
        return 'outside the trapezium'
    if reg and not agc_on:
        return 'AGC off'
    return None


def expected_bids(t, T, units, count=lambda *a: None):
    """the bid and trapezium tables of an interval, from its record T and its units"""
    by = {u['trader']['id']: u for u in units}
    vol = sides_of(T, T['get_unit_volume_bids'])
    lf = loss_factors(T, units)
    listed = {u for u, _ in lf}
    uigf = {x['DUID']: x['UIGF'] for x in T['get_UIGF_values']}
    ic = {x['DUID']: x for x in T['get_unit_initial_conditions']}
    cap = {}
    for v in vol:
        if v['BIDTYPE'] == 'ENERGY' and not (t < GU.CHANGE and v['DUID'] in uigf):
            cap.setdefault(v['DUID'], {})[v['DIRECTION']] = v['MAXAVAIL']
    eff, why = {}, {}
    nscaled = 0
    for v in vol:
        k = (v['DUID'], v['BIDTYPE'], v['DIRECTION'])
        if v['BIDTYPE'] == 'ENERGY':
            continue
        u = by[v['DUID']]
        eff[k], acted = scale(v, u['agc'] if u['in_load'] else {}, ic[v['DUID']], uigf.get(v['DUID']))
        for a in acted:
            count('scaled_' + a)
        nscaled += bool(acted)
    vk = {(v['DUID'], v['BIDTYPE'], v['DIRECTION']): v for v in vol}
    for k, q in eff.items():
        u = by[k[0]]
        ok = (k[0], k[1], 'LOAD' if k[2] == 'GENERATOR' else 'GENERATOR')
        other = eff.get(ok)
        if other is not None:
            # the other side counts while it is on offer at all: availability, bands, and availability reaching its enablement min
            oc = cap.get(k[0], {}).get(ok[2])
            if not other['MAXAVAIL'] > 0 or not any((vk[ok]['BANDAVAIL' + b] or 0) > 0 for b in B) or (oc is not None and oc < other['ENABLEMENTMIN']):
                other = None
        why[k] = enabled(vk[k], q, u['kind'], cap.get(k[0], {}), ic[k[0]]['INITIALMW'], ic[k[0]]['AGCSTATUS'] != 0, other)
        count('left_out: ' + why[k] if why[k] else 'considered')
    vols, prices, trap = [], [], []
    pr = {(p['DUID'], p['BIDTYPE'], p['DIRECTION']): p for p in T['get_unit_price_bids']}
    for k, v in vk.items():
        if k[1] != 'ENERGY' and why[k]:
            continue
        if k[1] != 'ENERGY':
            q = eff[k]
            trap.append({'unit': k[0], 'service': SERVICE[k[1]], 'dispatch_type': SIDE[k[2]], 'max_availability': q['MAXAVAIL'], 'enablement_min': q['ENABLEMENTMIN'],
                         'low_break_point': q['LOWBREAKPOINT'], 'high_break_point': q['HIGHBREAKPOINT'], 'enablement_max': q['ENABLEMENTMAX']})
        if k[0] not in listed:
            continue
        a = {'unit': k[0], 'service': SERVICE[k[1]], 'dispatch_type': SIDE[k[2]]}
        vols.append(dict(a, **{b: v['BANDAVAIL' + b] for b in B}))
        m = lf[(k[0], k[2])][1] if k[1] == 'ENERGY' else 1.0
        prices.append(dict(a, **{b: pr[k]['PRICEBAND' + b] * m for b in B}))
    trap = [x for x in trap if x['unit'] in listed]
    return {'vols': vols, 'prices': prices, 'trap': trap, 'why': why, 'eff': eff, 'nscaled': nscaled, 'listed': listed}


class Bids:
    ID = 'C18'
    CASES = {'quick': 1500, 'thorough': 40000}
    RULE = ('one evaluation = one synthetic interval (file and database in scratch, read through the real loader): processed bids and trapezium tables are requested in valid and invalid '
            'orders and repeatedly, and compared offer by offer with the published scaling and enablement rules applied to the record; non-trivial = some offer was scaled and some offer '
            'was left out; distinct = hash of the record')
    ASSUMPTIONS = ['interval files and database rows are synthetic', 'AGC enablement limits are not negative, and the lower ones of bidirectional units are zero or absent',
                   'the consumption side of a bidirectional unit follows the rules the code documents (no published document is available offline)',
                   'trapezium points are ordered; every bid has all ten bands and every unit an AGC status']
    MIN_EVENTS = {'offers': 10000, 'offers_scaled': 1500, 'offers_left_out': 3000, 'trapeziums_compared': 2000, 'order_refused': 300}

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        t, rec, units, db = GU.interval(rng)
        T = G.truth(rec)
        x = expected_bids(t, T, units, ctx.count)
        vols, prices, trap, why, eff, nscaled, listed = (x[k] for k in ('vols', 'prices', 'trap', 'why', 'eff', 'nscaled', 'listed'))
        ops = [{'op': 'new', 'cls': 'UnitData', 'as': 'u'}]
        tabs = ['get_fcas_max_availability', 'get_fcas_regulation_trapeziums', 'get_contingency_services']
        state = 0
        keys = [('new', None)]

        def call(name, k):
            ops.append({'op': 'call', 'on': 'u', 'name': name})
            keys.append((k, None))

        for _ in range(rng.randint(4, 9)):
            k = rng.random()
            if k < 0.25 or (state == 0 and k < 0.6):
                call('get_processed_bids', 'bids')
                state = max(state, 1)
            elif k < 0.5 or (state == 1 and k < 0.8):
                call('add_fcas_trapezium_constraints', 'add' if state >= 1 else 'refused')
                if state >= 1:
                    state = 2
            elif k < 0.9:
                call(rng.choice(tabs), 'trap' if state == 2 else 'refused')
            else:
                call(rng.choice(['get_unit_info', 'get_unit_bid_availability', 'get_bid_ramp_rates', 'get_initial_unit_output']), 'other')
        if state < 1:
            call('get_processed_bids', 'bids')
        if state < 2:
            call('add_fcas_trapezium_constraints', 'add')
        for x in rng.sample(tabs, 3):
            call(x, 'trap')
        job = {'kind': 'hist', 'texts': {G.interval_file(t): G.to_xml(rec, rng)}, 'db': db, 'interval': rec['interval'], 'ops': ops}
        r = ctx.run(job)
        if r is None:
            return
        ctx.replay = {'job': job}
        for (k, _), op, o in zip(keys, ops, r['res']):
            if k == 'refused':
                ctx.count('order_refused')
                if o.get('ok'):
                    ctx.fail('order', '%s before the bids were processed and the trapeziums added returned' % op['name'])
                elif 'MethodCallOrderError' not in o.get('mro', []):
                    ctx.fail('order', '%s out of order raised %s, not MethodCallOrderError' % (op['name'], o.get('err')))
                continue
            if not o.get('ok'):
                if k == 'other':
                    continue
                ctx.fail('raises', '%s raised %s: %s' % (op.get('name', 'UnitData()'), o.get('err'), o.get('msg')))
                return
            if k == 'bids':
                ctx.count('bid_tables_compared', 2)
                for nm, e, g in (('volume bids', vols, o['ret'][0]), ('price bids', prices, o['ret'][1])):
                    m = compare_rows(e, g)
                    if m:
                        ctx.fail('bids', '%s at %s: %s %s' % (nm, rec['interval'], m, self.explain(m, why)))
            elif k == 'trap':
                e = trap
                if op['name'] == 'get_fcas_regulation_trapeziums':
                    e = [x for x in trap if x['service'].endswith('reg')]
                elif op['name'] == 'get_contingency_services':
                    e = [x for x in trap if not x['service'].endswith('reg')]
                else:
                    e = [{c: x[c] for c in ('unit', 'service', 'dispatch_type', 'max_availability')} for x in trap]
                g = o['ret']
                if isinstance(g, dict) and 'unit' in g.get('cols', []):      # units the database does not know cannot be dispatched either way
                    i = g['cols'].index('unit')
                    g = dict(g, rows=[x for x in g['rows'] if x[i] in listed])
                ctx.count('trapeziums_compared', len(e))
                m = compare_rows(e, g)
                if m:
                    ctx.fail('trapezium', '%s at %s: %s %s' % (op['name'], rec['interval'], m, self.explain(m, why)))
        ctx.count('offers', len(eff))
        ctx.count('offers_scaled', nscaled)
        ctx.count('offers_left_out', sum(1 for x in why.values() if x))
        ctx.nontrivial = bool(nscaled and any(why.values()))
        ctx.sig = hashlib.md5(json.dumps([rec['traders'], db], sort_keys=True, default=str).encode()).hexdigest()
        ctx.sample = {'interval': rec['interval'], 'units': [(u['kind'], u['trader']['id']) for u in units], 'offers': len(eff), 'left_out': sum(1 for x in why.values() if x)}

    @staticmethod
    def explain(msg, why):
        inv = {v: k for k, v in SERVICE.items()}
        out = []
        for k, w in why.items():
            if "'%s'" % k[0] in msg and SERVICE[k[1]] in msg:
                out.append('%s: %s' % (k, w or 'satisfies the conditions'))
        return '; '.join(out[:2])


CHECKS = [Bids()]
