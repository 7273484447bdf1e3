"""Synthetic NEMDE interval records: a plain structure (the ground truth) and its XML text."""
import datetime as dt
from xml.sax.saxutils import quoteattr

CODES = {'RAISEREG': 'R5RE', 'LOWERREG': 'L5RE', 'RAISE5MIN': 'R5MI', 'LOWER5MIN': 'L5MI', 'RAISE60SEC': 'R60S', 'LOWER60SEC': 'L60S',
         'RAISE6SEC': 'R6SE', 'LOWER6SEC': 'L6SE', 'RAISE1SEC': 'R1SE', 'LOWER1SEC': 'L1SE'}
ENERGY_CODE = {'GENERATOR': 'ENOF', 'NORMALLY_ON_LOAD': 'LDOF', 'LOAD': 'LDOF', 'WDR': 'DROF', 'BIDIRECTIONAL': 'BDOF'}
DIRNAME = {'GEN': 'GENERATOR', 'LOAD': 'LOAD', None: None}
VIOL = dict(regional_demand='TotalAreaGenViolation', interocnnector='TotalInterconnectorViolation', generic_constraint='TotalGenericViolation',
            ramp_rate='TotalRampRateViolation', unit_capacity='TotalUnitMWCapacityViolation', energy_constraint='TotalEnergyConstrViolation',
            energy_offer='TotalEnergyOfferViolation', fcas_profile='TotalASProfileViolation', fast_start='TotalFastStartViolation',
            mnsp_ramp_rate='TotalMNSPRampRateViolation', msnp_offer='TotalMNSPOfferViolation', mnsp_capacity='TotalMNSPCapacityViolation', ugif='TotalUIGFViolation')
VPRICE = dict(regional_demand='EnergyDeficitPrice', interocnnector='InterconnectorPrice', generic_constraint='GenericConstraintPrice', ramp_rate='RampRatePrice',
              unit_capacity='CapacityPrice', energy_offer='OfferPrice', fcas_profile='ASProfilePrice', fcas_max_avail='ASMaxAvailPrice',
              fcas_enablement_min='ASEnablementMinPrice', fcas_enablement_max='ASEnablementMaxPrice', fast_start='FastStartPrice', mnsp_ramp_rate='MNSPRampRatePrice',
              msnp_offer='MNSPOfferPrice', mnsp_capacity='MNSPCapacityPrice', uigf='UIGFSurplusPrice', voll='VoLL', tiebreak='TieBreakPrice')
PRICES = {'EnergyPrice': 'ENERGY', 'R5Price': 'RAISE5MIN', 'L5Price': 'LOWER5MIN', 'R60Price': 'RAISE60SEC', 'L60Price': 'LOWER60SEC', 'R6Price': 'RAISE6SEC',
          'L6Price': 'LOWER6SEC', 'R1Price': 'RAISE1SEC', 'L1Price': 'LOWER1SEC'}
REGIONS = ['NSW1', 'QLD1', 'SA1', 'TAS1', 'VIC1']


def el(name, attrs=None, kids=None, text=None):
    return (name, dict(attrs or {}), list(kids or []))


def render(e, out, rng=None, ind=0):
    name, attrs, kids = e
    a = list(attrs.items())
    if rng is not None and rng.random() < 0.3:
        rng.shuffle(a)
    pad = ' ' * ind
    s = pad + '<' + name + ''.join(' %s=%s' % (k, quoteattr(str(v))) for k, v in a if v is not None)
    if not kids:
        out.append(s + '/>')
        return
    out.append(s + '>')
    for k in kids:
        render(k, out, rng, ind + 1)
    out.append(pad + '</' + name + '>')


def interval_file(t, ocd=False):
    """market day starting 04:05, interval number on that day"""
    start = t.replace(hour=4, minute=5, second=0)
    if t < start:
        start -= dt.timedelta(days=1)
    n = round((t - start).total_seconds() / 300) + 1
    return 'NEMSPDOutputs_%04d%02d%02d%03d00%s.loaded' % (start.year, start.month, start.day, n, '_OCD' if ocd else '')


def market_day(t):
    start = t.replace(hour=4, minute=5, second=0)
    if t < start:
        start -= dt.timedelta(days=1)
    return start.date()


def stamp(t):
    return t.strftime('%Y/%m/%d %H:%M:%S')


# ------------------------------------------------------------------ record -> xml
def trade_attrs(b):
    a = {'TradeType': b['type']}
    if b.get('dir'):
        a['Direction'] = b['dir']
    for k, n in (('max', 'MaxAvail'), ('enmin', 'EnablementMin'), ('enmax', 'EnablementMax'), ('low', 'LowBreakpoint'), ('high', 'HighBreakpoint'),
                 ('rdn', 'RampDnRate'), ('rup', 'RampUpRate')):
        if b.get(k) is not None:
            a[n] = b[k]
    for i, v in enumerate(b['bands']):
        if v is not None:
            a['BandAvail%d' % (i + 1)] = v
    return a


def rhs_terms(terms):
    return el('RHSTermCollection', {}, [el('RHSTerm', t) for t in terms])


def to_xml(rec, rng=None):
    iv = rec['intervention']
    traders, tperiods = [], []
    for t in rec['traders']:
        a = {'TraderID': t['id'], 'TraderType': t['type']}
        if t.get('fs'):
            a.update(t['fs'])
        ics = [el('TraderInitialCondition', {'InitialConditionID': k, 'Value': v}) for k, v in t['init'].items() if v is not None]
        ps = []
        for p in t['prices']:
            pa = {'TradeType': p['type']}
            if p.get('dir'):
                pa['Direction'] = p['dir']
            for i, v in enumerate(p['bands']):
                if v is not None:
                    pa['PriceBand%d' % (i + 1)] = v
            ps.append(el('TradeTypePriceStructure', pa))
        traders.append(el('Trader', a, [el('TraderInitialConditionCollection', {}, ics),
                                        el('TradePriceStructureCollection', {}, [el('TradePriceStructure', {'TradePriceStructureID': '1'}, [
                                            el('TradeTypePriceStructureCollection', {}, ps)])])]))
        ta = {'TraderID': t['id'], 'PeriodID': rec['interval']}
        if t.get('uigf') is not None:
            ta['UIGF'] = t['uigf']
        tperiods.append(el('TraderPeriod', ta, [el('TradeCollection', {}, [el('Trade', trade_attrs(b)) for b in t['trades']])]))
    cons = []
    for c in rec['constraints']:
        kids = []
        f = [el('RegionFactor', {'RegionID': r, 'TradeType': s, 'Factor': v}) for r, s, v in c['region']]
        f += [el('TraderFactor', {'TraderID': u, 'TradeType': s, 'Factor': v}) for u, s, v in c['unit']]
        f += [el('InterconnectorFactor', {'InterconnectorID': i, 'Factor': v}) for i, v in c['inter']]
        kids.append(el('LHSFactorCollection', {}, f))
        if c.get('terms'):
            kids.append(rhs_terms(c['terms']))
        cons.append(el('GenericConstraint', {'ConstraintID': c['id'], 'Version': '1', 'Type': c['type'], 'ViolationPrice': c['price']}, kids))
    inters = []
    for i in rec['inters']:
        k = []
        if i['offers']:
            k = [el('MNSPOfferCollection', {}, [el('MNSPOffer', {'RegionID': r, 'MaxAvail': v}) for r, v in i['offers']])]
        inters.append(el('InterconnectorPeriod', {'InterconnectorID': i['id'], 'MNSP': '1' if i['mnsp'] else '0', 'FromRegion': i['from'], 'ToRegion': i['to']}, k))
    scada = []
    for s in rec.get('scada', []):
        k = [el('ScadaValuesCollection', {}, [el('ScadaValues', v) for v in s['good']])]
        if s.get('bad'):
            k.append(el('BadScadaValuesCollection', {}, [el('ScadaValues', v) for v in s['bad']]))
        scada.append(el('ConstraintScadaData', {'SpdType': s['type']}, k))
    geqs = [el('GenericEquation', {'EquationID': g['id']}, [rhs_terms(g['terms'])] if g['terms'] else []) for g in rec.get('equations', [])]
    ents = [el('EnteredValuePeriod', {'SpdID': k, 'Value': v}) for k, v in rec.get('entered', [])]
    sols = []
    for s in rec['case_solutions']:
        sols.append(el('CaseSolution', s))
    for s in rec['period_solutions']:
        sols.append(el('PeriodSolution', s))
    for s in rec['region_solutions']:
        sols.append(el('RegionSolution', s))
    for s in rec['constraint_solutions']:
        sols.append(el('ConstraintSolution', s))
    root = el('NEMSPDCaseFile', {}, [
        el('NemSpdInputs', {}, [
            el('Case', dict(rec['case'], CaseID=rec['interval'])),
            el('TraderCollection', {}, traders),
            el('PeriodCollection', {}, [el('Period', {'PeriodID': rec['interval']}, [
                el('TraderPeriodCollection', {}, tperiods),
                el('InterconnectorPeriodCollection', {}, inters),
                el('EnteredValuePeriodCollection', {}, ents)])]),
            el('GenericConstraintCollection', {}, cons),
            el('GenericEquationCollection', {}, geqs),
            el('ConstraintScadaDataCollection', {}, scada)]),
        el('NemSpdOutputs', {}, sols)])
    out = ['<?xml version="1.0" encoding="utf-8"?>']
    render(root, out, rng)
    return '\n'.join(out)


# ------------------------------------------------------------------ random record (values free, shape realistic)
def num(rng, lo=-500, hi=500):
    k = rng.random()
    if k < 0.25:
        return str(rng.randint(int(lo), int(hi)))
    if k < 0.9:
        return repr(round(rng.uniform(lo, hi), rng.choice([1, 2, 5])))
    return rng.choice(['0', '0.0', '-0', '1e-3', '1E2', '12.50', '007']) if lo < 0 else rng.choice(['0', '0.0', '1e-3', '1E2', '12.50', '007'])


def random_record(rng, t):
    iv = rng.random() < 0.35
    rec = {'interval': stamp(t), 'intervention': iv}
    n = rng.randint(2, 9)
    names = rng.sample(['AGLHAL', 'W/HOE#1', 'W/HOE#2', 'BARRON-1', 'YWPS4', 'ADPBA1G', 'ADPBA1L', 'A&B', 'TIB1', 'HPRG1', 'U 1', 'U"2', 'LD01', 'LK<1', 'CALL_B_1', 'DEIBDL01', 'Bé1', '0042', 'VPGS5', 'X'], n)
    traders = []
    for u in names:
        ty = rng.choice(['GENERATOR'] * 5 + ['LOAD'] * 2 + ['NORMALLY_ON_LOAD', 'WDR', 'BIDIRECTIONAL', 'BIDIRECTIONAL'])
        init = {}
        ks = ['InitialMW', 'SCADARampUpRate', 'SCADARampDnRate', 'AGCStatus', 'HMW', 'LMW'] + (['WhatIfInitialMW'] if iv else [])
        rng.shuffle(ks)
        for k in ks:
            if k in ('InitialMW', 'WhatIfInitialMW') or rng.random() < 0.7:
                init[k] = rng.choice(['0', '1', '1.0']) if k == 'AGCStatus' else num(rng)
        if len(init) < 2:
            init['AGCStatus'] = '1'
        fs = None
        if rng.random() < 0.4:
            fs = {k: str(rng.randint(0, 60)) for k in ('MinLoadingMW', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4')}
            fs['CurrentMode'] = str(rng.randint(0, 4))
            if iv and rng.random() < 0.7:
                fs['WhatIfCurrentMode'] = str(rng.randint(0, 4))
                if rng.random() < 0.7:
                    fs['WhatIfCurrentModeTime'] = str(rng.randint(0, 60))
        sides = [('GEN',), ('LOAD',), ('GEN', 'LOAD')][rng.randrange(3)] if ty == 'BIDIRECTIONAL' else (None,)
        keys = []
        for s in sides:
            if rng.random() < 0.9:
                keys.append((ENERGY_CODE[ty], s))
        for svc in rng.sample(sorted(CODES), rng.choice([0, 0, 1, 2, 4, 10])):
            for s in (sides if rng.random() < 0.7 else sides[:1]):
                keys.append((CODES[svc], s))
        if not keys:
            keys = [(ENERGY_CODE[ty], sides[0])]
        rng.shuffle(keys)
        trades, prices = [], []
        for code, s in keys:
            e = code not in CODES.values()
            b = {'type': code, 'dir': s, 'bands': [num(rng, 0) for _ in range(10)], 'max': num(rng, 0)}
            if not e:
                for k in ('enmin', 'enmax', 'low', 'high'):
                    b[k] = num(rng)
            else:
                b['rdn'], b['rup'] = num(rng, 0), num(rng, 0)
            if rng.random() < 0.12:
                j = rng.randrange(10)
                b['bands'][j] = None
            if rng.random() < 0.1 and not e:
                b[rng.choice(['enmin', 'enmax', 'low', 'high', 'max'])] = None
            elif rng.random() < 0.06:
                b['max'] = None
            if rng.random() < 0.1 and e:
                b['rdn'] = None
            trades.append(b)
        pk = list(keys)
        rng.shuffle(pk)
        for code, s in pk:
            p = {'type': code, 'dir': s, 'bands': [num(rng) for _ in range(10)]}
            if rng.random() < 0.12:
                p['bands'][rng.randrange(10)] = None
            prices.append(p)
        traders.append({'id': u, 'type': ty, 'init': init, 'fs': fs, 'uigf': num(rng, 0) if rng.random() < 0.3 else None, 'trades': trades, 'prices': prices})
    rec['traders'] = traders
    svcs = ['ENOF', 'LDOF', 'DROF'] + sorted(CODES.values())
    inters = []
    for i, (nm, a, b) in enumerate(rng.sample([('T-V-MNSP1', 'TAS1', 'VIC1'), ('N-Q-MNSP1', 'NSW1', 'QLD1'), ('V-S-MNSP1', 'VIC1', 'SA1'), ('VIC1-NSW1', 'VIC1', 'NSW1'), ('V-SA', 'VIC1', 'SA1'), ('BASSLINK', 'TAS1', 'VIC1')], rng.randint(2, 6))):
        m = rng.random() < (0.8 if 'MNSP' in nm or nm == 'BASSLINK' else 0.1)
        offs = [(a, num(rng, 0)), (b, num(rng, 0))] if m else []
        if rng.random() < 0.5:
            offs.reverse()
        inters.append({'id': nm, 'mnsp': m, 'from': a, 'to': b, 'offers': offs})
    rec['inters'] = inters
    cons = []
    for k in range(rng.randint(2, 8)):
        c = {'id': rng.choice(['F_I+', 'N^^', 'S>>', '#', 'V::', 'DATASNAP ']) + 'C%d' % k, 'type': rng.choice(['LE', 'GE', 'EQ']), 'price': num(rng, 0, 1e6),
             'region': [(rng.choice(REGIONS), rng.choice(svcs), num(rng)) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
             'unit': [(rng.choice(names), rng.choice(svcs), num(rng)) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
             'inter': [(rng.choice(inters)['id'], num(rng)) for _ in range(rng.choice([0, 0, 1, 2]))]}
        cons.append(c)
    rec['constraints'] = cons
    runs = ['0', '1'] if iv else ['0']
    rec['constraint_solutions'] = [{'ConstraintID': c['id'], 'Intervention': r, 'RHS': num(rng), 'MarginalValue': '0'} for r in runs for c in cons if rng.random() < 0.95 or c is cons[0]]
    if len(rec['constraint_solutions']) < 2:
        rec['constraint_solutions'].append({'ConstraintID': 'EXTRA', 'Intervention': '0', 'RHS': num(rng), 'MarginalValue': '0'})
    case = {n_: num(rng, 0, 1e6) for n_ in VPRICE.values()}
    case['Intervention'] = 'True' if iv else 'False'
    rec['case'] = case
    vs = list(VIOL.values())
    split = {v: rng.random() < 0.7 for v in vs}
    zero = rng.random() < 0.4
    ps, cs = [], []
    for r in (runs if rng.random() < 0.5 else runs[::-1]):
        p, c = {'PeriodID': rec['interval'], 'Intervention': r}, {'CaseID': '1', 'Intervention': r}
        for v in vs:
            x = rng.choice(['0', '0', '0', num(rng, 0, 100)]) if not (zero and r == '0') else '0'
            if split[v]:
                p[v] = x
                if rng.random() < 0.2:
                    c[v] = num(rng, 0, 100)
            else:
                c[v] = x
        ps.append(p)
        cs.append(c)
    rec['period_solutions'], rec['case_solutions'] = ps, cs
    regs = []
    for r in runs:
        for reg in rng.sample(REGIONS, rng.randint(2, 5)) if False else REGIONS:
            a = {'RegionID': reg, 'Intervention': r, 'DispatchedGeneration': '100'}
            for p_ in PRICES:
                if p_ == 'EnergyPrice' or rng.random() < 0.8:
                    a[p_] = num(rng)
            regs.append(a)
    rec['region_solutions'] = regs
    return rec


# ------------------------------------------------------------------ ground truth
def fl(x):
    return None if x is None else float(x)


def truth(rec):
    """expected tables: name -> (key columns, {key: {col: value}}) or a plain dict"""
    iv = rec['intervention']
    out = {}
    ic = []
    for t in rec['traders']:
        ic.append({'DUID': t['id'], 'TRADERTYPE': t['type'], 'INITIALMW': fl(t['init'].get('WhatIfInitialMW' if iv else 'InitialMW')),
                   'RAMPUPRATE': fl(t['init'].get('SCADARampUpRate')), 'RAMPDOWNRATE': fl(t['init'].get('SCADARampDnRate')), 'AGCSTATUS': fl(t['init'].get('AGCStatus'))})
    out['get_unit_initial_conditions'] = ic
    fs = []
    for t in rec['traders']:
        if t.get('fs'):
            f = t['fs']
            fs.append({'DUID': t['id'], 'MinLoadingMW': int(f['MinLoadingMW']), 'CurrentMode': int(f.get('WhatIfCurrentMode', f['CurrentMode'])),
                       'CurrentModeTime': int(f.get('WhatIfCurrentModeTime', f['CurrentModeTime'])), 'T1': int(f['T1']), 'T2': int(f['T2']), 'T3': int(f['T3']), 'T4': int(f['T4'])})
    out['get_unit_fast_start_parameters'] = fs
    inv = {v: k for k, v in CODES.items()}
    vb, pb = [], []
    for t in rec['traders']:
        for b in t['trades']:
            r = {'DUID': t['id'], 'BIDTYPE': inv.get(b['type'], 'ENERGY'), 'DIRECTION': DIRNAME[b.get('dir')], 'MAXAVAIL': fl(b.get('max')),
                 'ENABLEMENTMIN': fl(b.get('enmin')), 'ENABLEMENTMAX': fl(b.get('enmax')), 'LOWBREAKPOINT': fl(b.get('low')), 'HIGHBREAKPOINT': fl(b.get('high'))}
            for i, v in enumerate(b['bands']):
                r['BANDAVAIL%d' % (i + 1)] = fl(v)
            r['RAMPDOWNRATE'], r['RAMPUPRATE'] = fl(b.get('rdn')), fl(b.get('rup'))
            vb.append(r)
        for p in t['prices']:
            d = DIRNAME[p.get('dir')] or ('LOAD' if t['type'] == 'LOAD' else 'GENERATOR')
            r = {'DUID': t['id'], 'BIDTYPE': inv.get(p['type'], 'ENERGY'), 'DIRECTION': d}
            for i, v in enumerate(p['bands']):
                r['PRICEBAND%d' % (i + 1)] = fl(v)
            pb.append(r)
    out['get_unit_volume_bids'], out['get_unit_price_bids'] = vb, pb
    out['get_UIGF_values'] = [{'DUID': t['id'], 'UIGF': fl(t['uigf'])} for t in rec['traders'] if t.get('uigf') is not None]
    p0 = [p for p in rec['period_solutions'] if p['Intervention'] == '0'][0]
    c0 = [p for p in rec['case_solutions'] if p['Intervention'] == '0'][0]
    out['get_violations'] = {k: float(p0[v] if v in p0 else c0[v]) for k, v in VIOL.items()}
    out['get_constraint_violation_prices'] = {k: float(rec['case'][v]) for k, v in VPRICE.items()}
    out['is_intervention_period'] = iv
    out['get_constraint_rhs'] = [{'set': c['ConstraintID'], 'rhs': float(c['RHS'])} for c in rec['constraint_solutions'] if c['Intervention'] == '0']
    out['get_constraint_type'] = [{'set': c['id'], 'type': c['type'], 'cost': float(c['price'])} for c in rec['constraints']]
    out['get_constraint_region_lhs'] = [{'set': c['id'], 'region': r, 'service': s, 'coefficient': float(v)} for c in rec['constraints'] for r, s, v in c['region']]
    out['get_constraint_unit_lhs'] = [{'set': c['id'], 'unit': r, 'service': s, 'coefficient': float(v)} for c in rec['constraints'] for r, s, v in c['unit']]
    out['get_constraint_interconnector_lhs'] = [{'set': c['id'], 'interconnector': r, 'coefficient': float(v)} for c in rec['constraints'] for r, v in c['inter']]
    out['get_market_interconnector_link_bid_availability'] = [{'interconnector': i['id'], 'to_region': r, 'availability': float(v)} for i in rec['inters'] if i['mnsp'] for r, v in i['offers']]
    out['get_service_prices'] = [{'region': a['RegionID'], 'service': s, 'price': float(a[p])} for a in rec['region_solutions'] if a['Intervention'] == '0' for p, s in PRICES.items() if p in a]
    return out
