"""C25: networks, demand and constraint tables built from a historical interval."""
import datetime as dt, hashlib, json, random
import gen_interval as G
import gen_units as GU
from checks_bids import SERVICE
from checks_xml import compare_rows, rows_of, same

INTERS = [('N-Q-MNSP1', 'NSW1', 'QLD1'), ('NSW1-QLD1', 'NSW1', 'QLD1'), ('V-S-MNSP1', 'VIC1', 'SA1'), ('V-SA', 'VIC1', 'SA1'), ('VIC1-NSW1', 'VIC1', 'NSW1'), ('X-9', 'SA1', 'NSW1')]
REL = {'LE': '<=', 'GE': '>=', 'EQ': '='}
SV = {v: SERVICE[k] for k, v in G.CODES.items()}
for c in ('ENOF', 'LDOF', 'DROF', 'BDOF'):
    SV[c] = 'energy'


def network(rng, t, wide=False):
    """interconnector records in force plus versions that are not; returns (list of interconnectors, database tables, offers for the file)"""
    eff0 = (t - dt.timedelta(days=rng.choice([1, 40, 400]))).replace(hour=0, minute=0)
    nets = []
    for n, a, b in rng.sample(INTERS, rng.randint(1, 5)):
        nets.append({'id': n, 'from': a, 'to': b, 'mnsp': False})
    if rng.random() < 0.75:
        nets.append({'id': 'T-V-MNSP1', 'from': 'TAS1', 'to': 'VIC1', 'mnsp': True})
    if rng.random() < 0.12:
        nets.append({'id': 'Z-MNSP1', 'from': 'SA1', 'to': 'TAS1', 'mnsp': True})
    rng.shuffle(nets)
    T = {k: [] for k in ('INTERCONNECTOR', 'INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL', 'MNSP_INTERCONNECTOR', 'DISPATCHINTERCONNECTORRES')}
    for x in nets:
        x['share'] = 0.5 if x['id'] == 'Z-MNSP1' else round(rng.uniform(0, 1), 2)
        x['const'], x['flow'] = round(rng.uniform(0.9, 1.1), 4), round(rng.uniform(0, 3e-4), 8)
        x['imp'], x['exp'] = float(rng.randint(0, 2500)), float(rng.randint(0, 2500))
        if rng.random() < 0.05:
            x['imp'], x['exp'] = (-min(x['imp'], x['exp']), x['exp']) if rng.random() < 0.5 else (0.0, 0.0)
        x['coef'] = [(r, round(rng.uniform(-7e-5, 7e-5), 9)) for r in rng.sample(G.REGIONS, rng.choice([0, 0, 1, 2, 3]))]
        x['bp'] = sorted({float(rng.randint(-900, 900)) for _ in range(rng.randint(2, 12))})
        if wide:             # a loss model as the market has it: it covers no flow and spans the limits
            b = max(abs(x['imp']), abs(x['exp']), 700.0) + 50.0
            x['bp'] = sorted(set(x['bp'][:rng.choice([0, 2, 5])]) | {-b, 0.0, b})
        T['INTERCONNECTOR'].append([x['id'], x['from'], x['to']])
        ver = rng.randint(1, 3)
        e = G.stamp(eff0)

        def versions():
            yield e, ver, True
            if ver > 1 and rng.random() < 0.6:
                yield e, ver - 1, False
            if rng.random() < 0.5:
                yield G.stamp(eff0 - dt.timedelta(days=30)), rng.randint(1, 9), False
            if rng.random() < 0.5:
                yield G.stamp((t + dt.timedelta(days=2)).replace(hour=0, minute=0)), 1, False

        for ed, v, cur in versions():
            T['INTERCONNECTORCONSTRAINT'].append([x['id'], ed, v] + ([x['share'], x['const'], 'MNSP' if x['mnsp'] else 'REGULATED', x['flow'], x['imp'], x['exp']] if cur
                                                                     else [0.9, 2.0, 'REGULATED', 0.5, 1.0, 1.0]))
        for ed, v, cur in versions():
            bp = list(enumerate(x['bp'], 1)) if cur else [(1, -7.0), (2, 7.0)]
            rng.shuffle(bp)
            T['LOSSMODEL'] += [[x['id'], ed, v, i, b] for i, b in bp]
        for ed, v, cur in versions():
            T['LOSSFACTORMODEL'] += [[x['id'], ed, v, r, c] for r, c in (x['coef'] if cur else [('NSW1', 0.01)])]
            if cur and not x['coef']:
                break                  # no demand terms at all: no rows in force for this interconnector
        if x['mnsp']:
            x['links'] = []
            for i, (a, b, f) in enumerate(((x['from'], x['to'], 1), (x['to'], x['from'], -1))):
                name = {('T-V-MNSP1', 0): 'BLNKTAS', ('T-V-MNSP1', 1): 'BLNKVIC'}.get((x['id'], i), 'ZL%d' % i)
                av = rng.choice([0.0, float(rng.randint(1, 600)), 478.0])
                lk = {'link': name, 'from': a, 'to': b, 'f': f, 'ftlf': round(rng.uniform(0.9, 1.05), 4), 'ttlf': round(rng.uniform(0.9, 1.05), 4), 'avail': av,
                      'cap': rng.choice([650.0, 650.0, 300.0, 0.0])}
                x['links'].append(lk)
                for ed, v, cur in versions():
                    T['MNSP_INTERCONNECTOR'].append([x['id'], name, ed, v] + ([a, b, lk['ftlf'], lk['ttlf'], f, lk['cap']] if cur else [a, b, 0.5, 0.5, f, 1.0]))
        T['DISPATCHINTERCONNECTORRES'].append([x['id'], G.stamp(t), 0.0, 0.0])
    # an interconnector that is defined but not dispatched in this interval
    if rng.random() < 0.4:
        T['INTERCONNECTOR'].append(['SNOWY1', 'SNOWY1', 'NSW1'])
        T['INTERCONNECTORCONSTRAINT'].append(['SNOWY1', G.stamp(eff0), 1, 0.5, 1.0, 'REGULATED', 0.1, 5.0, 5.0])
        T['LOSSMODEL'] += [['SNOWY1', G.stamp(eff0), 1, 1, -5.0], ['SNOWY1', G.stamp(eff0), 1, 2, 5.0]]
        T['DISPATCHINTERCONNECTORRES'].append(['SNOWY1', G.stamp(t - dt.timedelta(minutes=5)), 0.0, 0.0])
    cols = {'INTERCONNECTOR': ['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'],
            'INTERCONNECTORCONSTRAINT': ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE', 'LOSSCONSTANT', 'ICTYPE', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'],
            'LOSSMODEL': ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT', 'MWBREAKPOINT'],
            'LOSSFACTORMODEL': ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID', 'DEMANDCOEFFICIENT'],
            'MNSP_INTERCONNECTOR': ['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION', 'FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'],
            'DISPATCHINTERCONNECTORRES': ['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES']}
    db = {}
    for k, rows in T.items():
        ty = {'VERSIONNO': 'int', 'LOSSSEGMENT': 'int', 'LHSFACTOR': 'int', 'MWBREAKPOINT': 'float', 'DEMANDCOEFFICIENT': 'float', 'FROM_REGION_TLF': 'float', 'TO_REGION_TLF': 'float', 'MAXCAPACITY': 'float'}
        db[k] = {'cols': cols[k], 'rows': rows, 'mode': 'append' if k == 'DISPATCHINTERCONNECTORRES' else 'replace', 'types': {c: ty.get(c) for c in cols[k] if c in ty}}
    return nets, db


def expected_network(T, nets, dem):
    """constraint, demand and interconnector tables of an interval, from its record T and the network in force; also (definition, interconnector) by link"""
    exp = {}
    rhs = {c['set']: c['rhs'] for c in T['get_constraint_rhs']}
    typ = {c['set']: (REL[c['type']], c['cost']) for c in T['get_constraint_type']}
    R = [{'set': s, 'rhs': v, 'type': typ[s][0]} for s, v in rhs.items() if s in typ]
    rl = [dict(x, service=SV[x['service']]) for x in T['get_constraint_region_lhs']]
    reg = {x['set'] for x in rl}
    exp['get_rhs_and_type'] = R
    exp['get_rhs_and_type_excluding_regional_fcas_constraints'] = [x for x in R if x['set'] not in reg]
    exp['get_unit_lhs'] = [dict(x, service=SV[x['service']]) for x in T['get_constraint_unit_lhs']]
    exp['get_interconnector_lhs'] = T['get_constraint_interconnector_lhs']
    exp['get_region_lhs'] = rl
    exp['get_fcas_requirements'] = [{'set': x['set'], 'service': x['service'], 'region': x['region'], 'type': typ[x['set']][0], 'volume': rhs[x['set']]} for x in rl if x['set'] in rhs]
    exp['get_violation_costs'] = [{'set': s, 'cost': v[1]} for s, v in typ.items()]
    exp['get_operational_demand'] = [{'region': r, 'demand': v[0]} for r, v in dem.items()]
    ln = []
    for x in nets:
        if not x['mnsp']:
            ln.append(({'interconnector': x['id'], 'from_region': x['from'], 'to_region': x['to'], 'min': -x['imp'], 'max': x['exp'], 'link': x['id'], 'from_region_loss_factor': 1.0,
                        'to_region_loss_factor': 1.0, 'generic_constraint_factor': 1}, x))
        else:
            for l in x['links']:
                ln.append(({'interconnector': x['id'], 'from_region': l['from'], 'to_region': l['to'], 'min': 0.0, 'max': l['avail'], 'link': l['link'], 'from_region_loss_factor': l['ftlf'],
                            'to_region_loss_factor': l['ttlf'], 'generic_constraint_factor': l['f']}, x))
    exp['get_interconnector_definitions'] = [a for a, _ in ln]
    return exp, ln


def losses(x, f, dem):
    """the published loss equation of interconnector x at flow f"""
    c = x['const'] + sum(k * (dem[g][1] + dem[g][2]) for g, k in x['coef'])
    return (c - 1.0) * f + x['flow'] / 2.0 * f * f


class Network:
    ID = 'C25'
    CASES = {'quick': 1500, 'thorough': 25000}
    RULE = ('one evaluation = one synthetic interval (file and database in scratch, read through the real loader): interconnector definitions, loss model (functions evaluated at many '
            'flows), demand and every constraint table are requested in random order, some twice, and compared with tables computed from the records in force; non-trivial = the '
            'interval has a market link pair or demand dependent losses, and at least one regional FCAS set; distinct = hash of the records')
    ASSUMPTIONS = ['interval files and database rows are synthetic', 'region terms of constraints are FCAS terms and have coefficient one in requirement sets',
                   'a market interconnector other than Basslink has equal loss shares; both its links have an offer in the interval file']
    MIN_EVENTS = {'tables_compared': 5000, 'loss_values': 20000, 'market_links': 500, 'fcas_requirements': 1000}

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        t = GU.unit_time(rng)
        nets, db = network(rng, t)
        rec = GU.base_record(t)
        rec['case'] = {n: G.num(rng, 0, 1e6) for n in G.VPRICE.values()}
        rec['case']['Intervention'] = 'False'
        units = ['U%d' % i for i in range(4)] + ['W/HOE#1']
        rec['traders'] = [{'id': u, 'type': 'GENERATOR', 'init': {'InitialMW': '1', 'AGCStatus': '1'}, 'fs': None, 'uigf': None,
                           'trades': [{'type': 'ENOF', 'dir': None, 'bands': ['1'] * 10, 'max': '1', 'rdn': '1', 'rup': '1'}],
                           'prices': [{'type': 'ENOF', 'dir': None, 'bands': ['1'] * 10}]} for u in units]
        rec['inters'] = [{'id': x['id'], 'mnsp': x['mnsp'], 'from': x['from'], 'to': x['to'], 'offers': [(l['to'], repr(l['avail'])) for l in x.get('links', [])]} for x in nets]
        for x in rec['inters']:
            rng.shuffle(x['offers'])
        while len(rec['inters']) < 2:
            rec['inters'].append({'id': 'PAD', 'mnsp': False, 'from': 'VIC1', 'to': 'SA1', 'offers': []})
        cons = []
        for k in range(rng.randint(2, 10)):
            fc = rng.random() < 0.45
            c = {'id': rng.choice(['F_I+', 'N^^', 'S>>', '#', 'V::', 'DATASNAP ']) + 'C%d' % k, 'type': rng.choice(['LE', 'GE', 'EQ']), 'price': G.num(rng, 0, 1e6), 'region': [],
                 'unit': [(rng.choice(units), rng.choice(['ENOF', 'LDOF', 'DROF', 'BDOF'] + sorted(G.CODES.values())), G.num(rng)) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
                 'inter': [(rng.choice(nets)['id'], G.num(rng)) for _ in range(rng.choice([0, 0, 1, 2]))]}
            if fc:
                for s in rng.sample(sorted(G.CODES.values()), rng.choice([1, 1, 1, 2])):
                    for r in rng.sample(G.REGIONS, rng.randint(1, 5)):
                        c['region'].append((r, s, '1' if rng.random() < 0.9 else '1.0'))
            cons.append(c)
        rec['constraints'] = cons
        cs = [{'ConstraintID': c['id'], 'Intervention': '0', 'RHS': G.num(rng), 'MarginalValue': '0'} for c in cons if rng.random() < 0.9]
        while len(cs) < 2:
            cs.append({'ConstraintID': 'NOT A CONSTRAINT %d' % len(cs), 'Intervention': '0', 'RHS': '1', 'MarginalValue': '0'})
        rng.shuffle(cs)
        rec['constraint_solutions'] = cs
        dem = {r: (round(rng.uniform(300, 9000), 2), round(rng.uniform(-200, 200), 3), round(rng.uniform(300, 9000), 2)) for r in G.REGIONS}
        rows = [[G.stamp(t), r, a, b, c] for r, (a, b, c) in dem.items()]
        rows += [[G.stamp(t + dt.timedelta(minutes=5 * k)), r, 1.0, 2.0, 3.0] for k in (-1, 1) for r in G.REGIONS if rng.random() < 0.5]
        rng.shuffle(rows)
        db['DISPATCHREGIONSUM'] = {'cols': ['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'], 'rows': rows}
        T = G.truth(rec)
        ocd = rng.random() < 0.15
        exp, ln = expected_network(T, nets, dem)
        flows = [0.0, 1.0, -1.0] + [round(rng.uniform(-2000, 2000), 2) for _ in range(4)]
        on = {}
        for k in ('get_rhs_and_type', 'get_rhs_and_type_excluding_regional_fcas_constraints', 'get_unit_lhs', 'get_interconnector_lhs', 'get_region_lhs', 'get_fcas_requirements', 'get_violation_costs'):
            on[k] = 'ConstraintData'
        on['get_operational_demand'] = 'DemandData'
        on['get_interconnector_definitions'] = 'InterconnectorData'
        names = list(exp) + ['losses', 'prices', 'ocd'] + rng.sample(sorted(exp) + ['losses'], 3)
        rng.shuffle(names)
        ops = [{'op': 'new', 'cls': c} for c in ('ConstraintData', 'DemandData', 'InterconnectorData')]
        keys = [None] * 3
        for k in names:
            if k == 'losses':
                ops.append({'op': 'losses', 'on': 'InterconnectorData', 'flows': flows})
            elif k == 'prices':
                ops.append({'op': 'call', 'on': 'ConstraintData', 'name': 'get_constraint_violation_prices'})
            elif k == 'ocd':
                ops.append({'op': 'call', 'on': 'ConstraintData', 'name': 'is_over_constrained_dispatch_rerun'})
            else:
                ops.append({'op': 'call', 'on': on[k], 'name': k})
            keys.append(k)
        # the loss equation on its own, with arbitrary identifiers
        sh = {c: [q for q in range(4)] for c in 'ab'}
        lf = {'args': [{'cols': ['interconnector', 'loss_constant', 'flow_coefficient', 'from_region_loss_share'], 'rows': [[x['id'], x['const'], x['flow'], x['share']] for x in nets]},
                       {'cols': ['interconnector', 'region', 'demand_coefficient'], 'rows': [[x['id'], r, c] for x in nets for r, c in x['coef']], 'types': {'demand_coefficient': 'float'}},
                       {'cols': ['region', 'loss_function_demand'], 'rows': [[r, v[1] + v[2]] for r, v in dem.items()]}]}
        if lf['args'][1]['rows']:
            ops.append(dict({'op': 'loss_fn', 'flows': flows}, **lf))
            keys.append('loss_fn')
        job = {'kind': 'hist', 'texts': {G.interval_file(t, ocd): G.to_xml(rec, rng)}, 'db': db, 'interval': rec['interval'], 'ops': ops}
        r = ctx.run(job)
        if r is None:
            return
        ctx.replay = {'job': job}
        at = rec['interval']

        for k, op, o in zip(keys, ops, r['res']):
            if not o.get('ok'):
                ctx.fail('raises', '%s at %s raised %s: %s' % (op.get('name') or op.get('cls') or op['op'], at, o.get('err'), o.get('msg')))
                continue
            if k is None:
                continue
            ctx.count('tables_compared')
            if k == 'prices':
                for n, v in T['get_constraint_violation_prices'].items():
                    if not same(v, o['ret'].get(n)):
                        ctx.fail('violation-price', '%s: %s, recorded %s' % (n, o['ret'].get(n), v))
            elif k == 'ocd':
                if bool(o['ret']) != ocd:
                    ctx.fail('over-constrained', 'over constrained rerun reported %s for %s' % (o['ret'], G.interval_file(t, ocd)))
            elif k == 'loss_fn':
                got = {a: (b, c) for a, b, c in o['ret']}
                for x in nets:
                    if x['id'] not in got:
                        ctx.fail('loss-function', 'no loss function for %s' % x['id'])
                        continue
                    for f, v in zip(flows, got[x['id']][1]):
                        ctx.count('loss_values')
                        e = losses(x, f, dem)
                        if abs(e - v) > 1e-6 * max(1.0, abs(e)):
                            ctx.fail('loss-function', '%s at %s MW: losses %s, the loss equation gives %s' % (x['id'], f, v, e))
            elif k == 'losses':
                tab, bps = o['ret']
                got = {}
                for row, v in zip(rows_of(tab), tab['losses']):
                    got.setdefault((row['interconnector'], row['link']), []).append((row, v))
                want = {(a['interconnector'], a['link']): (a, x) for a, x in ln}
                if sorted(got) != sorted(want) or any(len(v) != 1 for v in got.values()):
                    ctx.fail('loss-model', 'loss functions for %s, expected one each for %s' % (sorted(got), sorted(want)))
                    continue
                for q, (a, x) in want.items():
                    row, v = got[q][0]
                    share = 1.0 if x['id'] == 'T-V-MNSP1' else x['share']
                    if not same(float(row['from_region_loss_share']), share):
                        ctx.fail('loss-share', '%s: from region loss share %s, expected %s' % (q, row['from_region_loss_share'], share))
                    for f, y in zip(flows, v):
                        ctx.count('loss_values')
                        e = losses(x, f * a['generic_constraint_factor'], dem)
                        if abs(e - y) > 1e-6 * max(1.0, abs(e)):
                            ctx.fail('loss-function', '%s at %s MW: losses %s, the loss equation gives %s' % (q, f, y, e))
                e = [{'interconnector': a['interconnector'], 'link': a['link'], 'break_point': b * a['generic_constraint_factor']} for a, x in ln for b in x['bp']]
                m = compare_rows(e, bps)
                if m:
                    ctx.fail('break-points', 'at %s: %s' % (at, m))
                seen = set()
                for row in rows_of(bps):
                    s = (row['link'], row['loss_segment'])
                    if s in seen:
                        ctx.fail('break-points', 'loss segment %s of %s appears twice' % (s[1], s[0]))
                    seen.add(s)
            else:
                m = compare_rows(exp[k], o['ret'])
                if m:
                    ctx.fail('table', '%s at %s: %s' % (k, at, m))
        nl = sum(2 for x in nets if x['mnsp'])
        ctx.count('market_links', nl)
        ctx.count('fcas_requirements', len(exp['get_fcas_requirements']))
        ctx.nontrivial = bool((nl or any(x['coef'] for x in nets)) and exp['get_fcas_requirements'])
        ctx.sig = hashlib.md5(json.dumps([nets, cons, cs, dem], sort_keys=True, default=str).encode()).hexdigest()
        ctx.sample = {'interval': at, 'interconnectors': [x['id'] for x in nets], 'sets': len(cons), 'requirements': len(exp['get_fcas_requirements'])}


CHECKS = [Network()]
