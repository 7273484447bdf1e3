"""Realistic unit records of one historical interval: an interval file record and the market database rows that go with it."""
import datetime as dt
import gen_interval as G

CHANGE = dt.datetime(2023, 7, 7, 13, 40)     # semi-scheduled units are held to their bid availability from here on


def unit_time(rng):
    k = rng.random()
    if k < 0.25:
        return CHANGE + dt.timedelta(minutes=5 * rng.choice([-1, 0, 1, -288, 288, -2, 2]))
    if k < 0.6:
        return dt.datetime(rng.randint(2018, 2022), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 5 * rng.randint(0, 11))
    return dt.datetime(2024, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 5 * rng.randint(0, 11))


def base_record(t):
    """everything a file needs besides traders"""
    rec = {'interval': G.stamp(t), 'intervention': False}
    rec['constraints'] = [{'id': c, 'type': 'LE', 'price': '1', 'region': [], 'unit': [], 'inter': []} for c in ('A', 'B')]
    rec['inters'] = [{'id': 'I%d' % i, 'mnsp': False, 'from': 'A', 'to': 'B', 'offers': []} for i in range(2)]
    rec['constraint_solutions'] = [{'ConstraintID': c, 'Intervention': '0', 'RHS': '1'} for c in 'AB']
    rec['case'] = {n: '1' for n in G.VPRICE.values()}
    rec['period_solutions'] = [dict({n: '0' for n in G.VIOL.values()}, PeriodID='1', Intervention='0')]
    rec['case_solutions'] = [{'CaseID': '1', 'Intervention': '0'}]
    rec['region_solutions'] = [{'RegionID': x, 'Intervention': '0', 'EnergyPrice': '1'} for x in ('A', 'B')]
    return rec


def s(x):
    return repr(float(x)) if float(x) != int(float(x)) else str(int(float(x)))


def split(rng, total):
    """ten bands, many empty"""
    bands = [0.0] * 10
    for i in rng.sample(range(10), rng.choice([1, 1, 2, 3, 5, 10])):
        bands[i] = round(rng.uniform(0.1, 1.0) * max(total, 1.0), rng.choice([0, 1, 1, 3]))
    return bands


def trapezium(rng, pts, lo, hi):
    """four ordered points in [lo, hi], often touching one of the interesting points"""
    c = [rng.choice(pts) if rng.random() < 0.45 else round(rng.uniform(lo, hi), rng.choice([0, 1, 2])) for _ in range(4)]
    c = sorted(min(max(x, lo), hi) for x in c)
    k = rng.random()
    if k < 0.15:
        c[1] = c[0]
    elif k < 0.3:
        c[2] = c[3]
    elif k < 0.35:
        c[2] = c[1]
    if rng.random() < 0.5:
        c[0] = min(c[0], lo) if rng.random() < 0.6 else c[0]
        c[3] = max(c[3], hi) if rng.random() < 0.6 else c[3]
    return c


def make_unit(rng, name, kind, iv, fast=None):
    cap = rng.choice([5, 20, 30, 60, 100, 155, 250, 500])
    bdu = kind == 'BDU'
    ty = {'GEN': 'GENERATOR', 'SEMI': 'GENERATOR', 'LOAD': 'LOAD', 'WDR': 'WDR', 'BDU': 'BIDIRECTIONAL'}[kind]
    lo = -cap if bdu else 0.0
    k = rng.random()
    x0 = 0.0 if k < 0.25 else cap if k < 0.32 else -cap if bdu and k < 0.38 else round(rng.uniform(lo, cap), rng.choice([0, 1, 3, 5]))
    if rng.random() < 0.15:
        x0 = round(round(x0, 5) + rng.choice([2.1e-6, -2.1e-6]), 7)      # rounds away
    if not bdu and rng.random() < 0.08:
        x0 = -round(rng.uniform(0.01, 3.0), 2)
    init = {'InitialMW': s(x0), 'AGCStatus': rng.choice(['1', '1', '1', '0'])}
    if iv:
        x0 = round(rng.uniform(lo, cap), 1)
        init['WhatIfInitialMW'] = s(x0)
    for k_ in ('SCADARampUpRate', 'SCADARampDnRate'):
        z = rng.random()
        if z < 0.6:
            init[k_] = s(round(rng.choice([0.1, 0.5, 1, 6, 60]) * cap * rng.uniform(0.5, 1.5), rng.choice([0, 2])))
        elif z < 0.72:
            init[k_] = '0'
    sides = (None,)
    if bdu:
        sides = rng.choice([('GEN', 'LOAD')] * 6 + [('GEN',), ('LOAD',)])
    uigf = None
    if kind == 'SEMI':
        uigf = s(rng.choice([0.0, round(max(x0, 0.0), 5), cap, round(rng.uniform(0, cap), rng.choice([0, 2, 5]))]))
    trades, prices = [], []
    avail = {}
    fcas_only = rng.random() < 0.08
    for sd in sides:
        z = rng.random()
        avail[sd] = 0.0 if z < 0.1 else cap if z < 0.5 else round(rng.uniform(0, cap), rng.choice([0, 1]))
        if fcas_only:
            continue
        b = {'type': G.ENERGY_CODE[ty], 'dir': sd, 'bands': [s(x) for x in split(rng, avail[sd])], 'max': s(avail[sd]),
             'rdn': s(round(rng.uniform(0.5, 60) * cap)), 'rup': s(round(rng.uniform(0.5, 60) * cap))}
        if rng.random() < 0.3:
            for k_ in ('enmin', 'enmax', 'low', 'high'):
                b[k_] = b['max']          # as the real files have it
        trades.append(b)
    svcs = rng.sample(sorted(G.CODES), rng.choice([0, 1, 2, 4, 7, 10]))
    if rng.random() < 0.5 and 'RAISEREG' not in svcs:
        svcs.append('RAISEREG')
    if rng.random() < 0.5 and 'LOWERREG' not in svcs:
        svcs.append('LOWERREG')
    if fcas_only and not svcs:
        svcs = ['RAISE6SEC']
    for svc in svcs:
        for sd in (sides if rng.random() < 0.8 else [rng.choice(sides)]):
            pts = [x0, round(x0, 5), 0.0, cap] + [v if q != 'LOAD' else -v for q, v in avail.items()]
            reg = svc.endswith('REG')
            if not bdu:
                tr = trapezium(rng, pts, 0.0, cap)
            elif reg:
                tr = trapezium(rng, pts, 0.0, cap) if sd == 'GEN' else trapezium(rng, pts, -cap, 0.0)
            else:
                tr = trapezium(rng, pts, -cap, cap)
                if sd == 'LOAD' and tr[3] < -avail['LOAD']:
                    tr[3] = max(tr[2], 0.0)
            if not bdu and rng.random() < 0.04:
                tr = [x - 2 * cap for x in tr]          # an enablement range below zero
            m = 0.0 if rng.random() < 0.08 else round(rng.uniform(0.01, 0.6) * cap, rng.choice([0, 1, 2]))
            bands = [0.0] * 10 if rng.random() < 0.06 else split(rng, m)
            trades.append({'type': G.CODES[svc], 'dir': sd, 'bands': [s(x) for x in bands], 'max': s(m), 'enmin': s(tr[0]), 'low': s(tr[1]), 'high': s(tr[2]), 'enmax': s(tr[3])})
    rng.shuffle(trades)
    for b in trades:
        lo_, step = rng.choice([-1000.0, 0.0, 20.0]), rng.uniform(1, 300)
        prices.append({'type': b['type'], 'dir': b['dir'], 'bands': [s(round(lo_ + step * i, rng.choice([0, 2]))) for i in range(10)]})
    if rng.random() < 0.5:
        rng.shuffle(prices)
    fs = None
    if fast:
        fs = fast(rng, cap)
    tlf, dlf = round(rng.uniform(0.8, 1.1), 4), rng.choice([1.0, round(rng.uniform(0.95, 1.06), 4)])
    agc = {}
    for d in ('RAISE', 'LOWER'):
        for e in ('MAX', 'MIN'):
            z = rng.random()
            if bdu and e == 'MIN':
                v = rng.choice([0.0, None])
            elif z < 0.25:
                v = 0.0
            elif z < 0.35:
                v = None
            else:
                v = round(rng.uniform(0, cap), rng.choice([0, 1, 5])) if rng.random() < 0.8 else float(max(x0, 0.0))
            agc[d + 'REGENABLEMENT' + e] = v
    return {'trader': {'id': name, 'type': ty, 'init': init, 'fs': fs, 'uigf': uigf, 'trades': trades, 'prices': prices}, 'cap': cap, 'kind': kind, 'agc': agc,
            'tlf': tlf, 'dlf': dlf, 'tlf2': (round(rng.uniform(0.8, 1.1), 4) if rng.random() < 0.6 else None) if bdu or rng.random() < 0.2 else None,
            'region': rng.choice(G.REGIONS), 'listed': rng.random() > 0.05, 'in_load': rng.random() > 0.12}


def fast_start(rng, cap):
    z = lambda: rng.choice([0, 0, 1, 2, 3, 4, 5, 5, 6, 7, 9, 10, 11, 15, 20, 45, 60])
    T = [z() for _ in range(4)]
    mode = rng.choice([0, 0, 0, 1, 2, 3, 4, 1, 2, 3])
    t = 0
    if mode:
        t = rng.choice([0, T[mode - 1], rng.randint(0, T[mode - 1]), max(T[mode - 1] - 5, 0), max(T[mode - 1] - rng.randint(1, 6), 0)])
    elif rng.random() < 0.15:
        t = rng.randint(1, 60)
    return {'MinLoadingMW': str(rng.randint(0, cap)), 'CurrentMode': str(mode), 'CurrentModeTime': str(t), 'T1': str(T[0]), 'T2': str(T[1]), 'T3': str(T[2]), 'T4': str(T[3])}


NAMES = ['AGLHAL', 'W/HOE#1', 'W/HOE#2', 'BARRON-1', 'YWPS4', 'ADPBA1G', 'ADPBA1L', 'A&B', 'TIB1', 'HPRG1', 'U 1', 'LD01', 'CALL_B_1', 'DEIBDL01', '0042', 'VPGS5', 'X', 'HBESS1', 'WDRP1', 'SF1']


def interval(rng, kinds=('GEN', 'GEN', 'SEMI', 'LOAD', 'LOAD', 'BDU', 'BDU', 'WDR'), p_fast=0.0, n=None):
    """(time, record, units, database tables)"""
    t = unit_time(rng)
    rec = base_record(t)
    iv = rng.random() < 0.1
    if iv:
        rec['intervention'] = True
        rec['case']['Intervention'] = 'True'
        for k in ('period_solutions', 'case_solutions', 'region_solutions', 'constraint_solutions'):
            rec[k] = rec[k] + [dict(x, Intervention='1') for x in rec[k]]
    else:
        rec['case']['Intervention'] = 'False'
    units = []
    for name in rng.sample(NAMES, n or rng.randint(2, 6)):
        kind = rng.choice(kinds)
        units.append(make_unit(rng, name, kind, iv, fast_start if kind in ('GEN', 'LOAD') and rng.random() < p_fast else None))
    rec['traders'] = [u['trader'] for u in units]
    now = G.stamp(t)
    det, load = [], []
    for u in units:
        d = u['trader']['id']
        if u['listed']:
            det.append({'DUID': d, 'START_DATE': G.stamp(t - dt.timedelta(days=rng.choice([0, 1, 300]))), 'END_DATE': G.stamp(t + dt.timedelta(days=rng.choice([1, 400]))),
                        'DISPATCHTYPE': {'LOAD': 'LOAD', 'BDU': 'BIDIRECTIONAL'}.get(u['kind'], 'GENERATOR'), 'CONNECTIONPOINTID': 'CP' + d, 'REGIONID': u['region'],
                        'TRANSMISSIONLOSSFACTOR': u['tlf'], 'DISTRIBUTIONLOSSFACTOR': u['dlf'], 'SCHEDULE_TYPE': 'SCHEDULED', 'SECONDARY_TLF': u['tlf2']})
        if rng.random() < 0.3:        # an older record that has ended
            det.append({'DUID': d, 'START_DATE': '2001/01/01 00:00:00', 'END_DATE': '2002/01/01 00:00:00', 'DISPATCHTYPE': 'GENERATOR', 'CONNECTIONPOINTID': 'OLD', 'REGIONID': 'SNOWY1',
                        'TRANSMISSIONLOSSFACTOR': 0.5, 'DISTRIBUTIONLOSSFACTOR': 0.5, 'SCHEDULE_TYPE': 'SCHEDULED', 'SECONDARY_TLF': None})
        if u['in_load']:
            load.append(dict({'SETTLEMENTDATE': now, 'DUID': d, 'INITIALMW': 1.0, 'AGCSTATUS': '1'}, **u['agc']))
        if rng.random() < 0.3:        # another interval's limits
            load.append({'SETTLEMENTDATE': G.stamp(t + dt.timedelta(minutes=5 * rng.choice([-1, 1]))), 'DUID': d, 'INITIALMW': 2.0, 'AGCSTATUS': '0',
                         'RAISEREGENABLEMENTMAX': 0.5, 'RAISEREGENABLEMENTMIN': 0.25, 'LOWERREGENABLEMENTMAX': 0.5, 'LOWERREGENABLEMENTMIN': 0.25})
    dcols = ['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID', 'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE', 'SECONDARY_TLF']
    lcols = ['SETTLEMENTDATE', 'DUID', 'INITIALMW', 'AGCSTATUS', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN']
    db = {'DUDETAILSUMMARY': {'cols': dcols, 'rows': [[r[c] for c in dcols] for r in det]},
          'DISPATCHLOAD': {'cols': lcols, 'rows': [[r[c] for c in lcols] for r in load]}}
    return t, rec, units, db
