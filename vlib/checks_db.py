"""C22 (lookups return the rows in force) and C23 (population neither loses nor duplicates rows)."""
import copy, datetime as dt, hashlib, json, random
from checks_xml import compare_rows, rows_of, same
from gen_interval import stamp

TABLES = {
    'DISPATCHREGIONSUM': (['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'], ['SETTLEMENTDATE', 'REGIONID'], 'multi'),
    'DISPATCHPRICE': (['SETTLEMENTDATE', 'REGIONID', 'ROP', 'RAISE6SECROP', 'RAISE1SECROP', 'RAISE60SECROP', 'RAISE5MINROP', 'RAISEREGROP', 'LOWER6SECROP', 'LOWER1SECROP', 'LOWER60SECROP', 'LOWER5MINROP', 'LOWERREGROP'], ['SETTLEMENTDATE', 'REGIONID'], 'multi'),
    'DISPATCHLOAD': (['SETTLEMENTDATE', 'DUID', 'DISPATCHMODE', 'AGCSTATUS', 'INITIALMW', 'TOTALCLEARED', 'RAMPDOWNRATE', 'RAMPUPRATE', 'AVAILABILITY', 'RAISEREGENABLEMENTMAX',
                      'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN', 'SEMIDISPATCHCAP', 'LOWER5MIN', 'LOWER60SEC', 'LOWER6SEC', 'LOWER1SEC', 'RAISE5MIN',
                      'RAISE60SEC', 'RAISE6SEC', 'RAISE1SEC', 'LOWERREG', 'RAISEREG', 'RAISEREGAVAILABILITY', 'RAISE6SECACTUALAVAILABILITY', 'RAISE1SECACTUALAVAILABILITY',
                      'RAISE60SECACTUALAVAILABILITY', 'RAISE5MINACTUALAVAILABILITY', 'RAISEREGACTUALAVAILABILITY', 'LOWER6SECACTUALAVAILABILITY', 'LOWER1SECACTUALAVAILABILITY',
                      'LOWER60SECACTUALAVAILABILITY', 'LOWER5MINACTUALAVAILABILITY', 'LOWERREGACTUALAVAILABILITY'], ['SETTLEMENTDATE', 'DUID'], 'multi'),
    'DISPATCHCONSTRAINT': (['SETTLEMENTDATE', 'CONSTRAINTID', 'RHS', 'GENCONID_EFFECTIVEDATE', 'GENCONID_VERSIONNO', 'LHS', 'VIOLATIONDEGREE', 'MARGINALVALUE'], ['SETTLEMENTDATE', 'CONSTRAINTID'], 'multi'),
    'DISPATCHINTERCONNECTORRES': (['INTERCONNECTORID', 'SETTLEMENTDATE', 'MWFLOW', 'MWLOSSES'], ['INTERCONNECTORID', 'SETTLEMENTDATE'], 'multi'),
    'DUDETAILSUMMARY': (['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID', 'TRANSMISSIONLOSSFACTOR', 'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE', 'SECONDARY_TLF'], ['START_DATE', 'DUID'], 'single'),
    'DUDETAIL': (['DUID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGISTEREDCAPACITY'], ['DUID', 'EFFECTIVEDATE', 'VERSIONNO'], 'single'),
    'INTERCONNECTOR': (['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'], ['INTERCONNECTORID'], 'single'),
    'INTERCONNECTORCONSTRAINT': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE', 'LOSSCONSTANT', 'ICTYPE', 'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'], ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO'], 'single'),
    'LOSSMODEL': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT', 'MWBREAKPOINT'], ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT'], 'single'),
    'LOSSFACTORMODEL': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID', 'DEMANDCOEFFICIENT'], ['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'REGIONID'], 'single'),
    'MNSP_INTERCONNECTOR': (['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION', 'FROM_REGION_TLF', 'TO_REGION_TLF', 'LHSFACTOR', 'MAXCAPACITY'], ['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO'], 'single'),
    'GENCONDATA': (['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'CONSTRAINTTYPE', 'GENERICCONSTRAINTWEIGHT'], ['GENCONID', 'EFFECTIVEDATE', 'VERSIONNO'], 'hist'),
    'SPDREGIONCONSTRAINT': (['REGIONID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'BIDTYPE', 'FACTOR'], ['REGIONID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'BIDTYPE'], 'hist'),
    'SPDCONNECTIONPOINTCONSTRAINT': (['CONNECTIONPOINTID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'BIDTYPE', 'FACTOR'], ['CONNECTIONPOINTID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO', 'BIDTYPE'], 'hist'),
    'SPDINTERCONNECTORCONSTRAINT': (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'GENCONID', 'FACTOR'], ['INTERCONNECTORID', 'GENCONID', 'EFFECTIVEDATE', 'VERSIONNO'], 'hist'),
}
EFF = ['DUDETAIL', 'MNSP_INTERCONNECTOR', 'INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL']
BYRES = ['INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL']
NAMES = {'REGIONID': ['NSW1', 'QLD1', 'SA1', 'TAS1', 'VIC1'], 'DUID': ['U1', 'U2', 'W/HOE#1', 'Q-42', 'AGLHAL'], 'INTERCONNECTORID': ['V-SA', 'T-V-MNSP1', 'VIC1-NSW1', 'N-Q-MNSP1'],
         'CONSTRAINTID': ['F_I+A', 'N^^B', '#C', 'S>>D'], 'GENCONID': ['F_I+A', 'N^^B', '#C', 'S>>D'], 'LINKID': ['L1', 'L2'], 'CONNECTIONPOINTID': ['CP1', 'CP2'],
         'BIDTYPE': ['ENERGY', 'RAISEREG', 'LOWER5MIN']}
TEXTCOL = {'DISPATCHTYPE': ['GENERATOR', 'LOAD', 'BIDIRECTIONAL'], 'SCHEDULE_TYPE': ['SCHEDULED', 'NON-SCHEDULED'], 'ICTYPE': ['MNSP', 'REGULATED'], 'CONSTRAINTTYPE': ['<=', '>=', '='],
           'FROMREGION': NAMES['REGIONID'], 'TOREGION': NAMES['REGIONID'], 'REGIONFROM': NAMES['REGIONID'], 'REGIONTO': NAMES['REGIONID'], 'AGCSTATUS': ['0', '1'], 'DISPATCHMODE': ['0', '1']}


def value(rng, col):
    if col in TEXTCOL:
        return rng.choice(TEXTCOL[col])
    if col in NAMES:
        return rng.choice(NAMES[col])
    return round(rng.uniform(-500, 500), 3)


def day_grid(rng, base):
    """times on the five minute grid around a base, biased to day, market day, month and year boundaries"""
    k = rng.random()
    d = base + dt.timedelta(days=rng.choice([0, 0, 1, -1, 2, 30, -365]))
    d = d.replace(hour=0, minute=0)
    if k < 0.3:
        return d
    if k < 0.6:
        return d + dt.timedelta(hours=4, minutes=rng.choice([0, 5]))
    return d + dt.timedelta(minutes=5 * rng.randrange(288))


def fill(rng, table, keyvals):
    cols, keys, _ = TABLES[table]
    return [keyvals.get(c, None) if c in keyvals else value(rng, c) for c in cols]


def norm_text(rows):
    """sqlite columns declared TEXT hold digits as text: compare numerically when both sides are numbers"""
    out = []
    for r in rows:
        q = dict(r)
        for c in ('VERSIONNO', 'GENCONID_VERSIONNO', 'LOSSSEGMENT', 'AGCSTATUS', 'DISPATCHMODE'):
            if c in q and q[c] is not None:
                q[c] = float(q[c])
        out.append(q)
    return out


def cmp_tab(exp, ret):
    if not isinstance(ret, dict) or 'cols' not in ret:
        return 'not a table'
    got = norm_text(rows_of(ret))
    exp = norm_text(exp)
    # unit and constraint names may be digits only: sqlite/pandas may hand them back as numbers unless the column is TEXT
    return compare_rows(exp, {'cols': ret['cols'], 'rows': [[r.get(c) for c in ret['cols']] for r in got]})


class Lookup:
    ID = 'C22'
    CASES = {'quick': 900, 'thorough': 15000}
    RULE = ('one evaluation = one scratch database filled with generated tables (many times, versions, ties, future rows) and a random sequence of lookups and further inserts; each '
            'lookup is compared with the rows in force recomputed from the inserted rows; non-trivial = at least one lookup had both rows in force and rows to be left out')
    MIN_EVENTS = {'lookups': 1500, 'rows_left_out': 3000}
    ASSUMPTIONS = ['records of one unit in the unit detail table do not overlap in time', 'version numbers of directly inserted rows have one digit (the columns are created as text); loaded ones are numbers']

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        base = rng.choice([dt.datetime(2019, 1, 1), dt.datetime(2020, 2, 29), dt.datetime(2023, 12, 31), dt.datetime(2024, 8, 1), dt.datetime(2013, 1, rng.randint(1, 31))])
        times = sorted({day_grid(rng, base) for _ in range(rng.randint(2, 8))})
        content = {}
        typed = rng.random() < 0.5        # tables created by the manager (text version columns) or replaced as set_data does
        vmax = 9 if typed else 23
        ops, exp = [], []
        extra = {'BYINTERVAL': {'cls': 'InputsByIntervalDateTime', 'cols': ['INTERVAL_DATETIME', 'DUID', 'MAXAVAIL'], 'keys': ['INTERVAL_DATETIME', 'DUID']},
                 'BYDAY': {'cls': 'InputsByDay', 'cols': ['SETTLEMENTDATE', 'DUID', 'PRICEBAND1'], 'keys': ['SETTLEMENTDATE', 'DUID']}}

        def gen(table):
            rows = []
            if table == 'BYINTERVAL':
                for t in times:
                    for u in rng.sample(NAMES['DUID'], rng.randint(0, 3)):
                        rows.append([stamp(t), u, value(rng, 'X')])
                return ['INTERVAL_DATETIME', 'DUID', 'MAXAVAIL'], rows
            if table == 'BYDAY':
                for t in sorted({(t - dt.timedelta(days=k)).replace(hour=0, minute=0) for t in times for k in (0, 1)}):
                    for u in rng.sample(NAMES['DUID'], rng.randint(0, 3)):
                        rows.append([stamp(t), u, value(rng, 'X')])
                return ['SETTLEMENTDATE', 'DUID', 'PRICEBAND1'], rows
            cols, keys, kind = TABLES[table]
            seen = set()
            if kind == 'multi':
                idc = [k for k in keys if k != 'SETTLEMENTDATE'][0]
                for t in times:
                    for n in rng.sample(NAMES[idc], rng.randint(0, len(NAMES[idc]))):
                        kv = {'SETTLEMENTDATE': stamp(t), idc: n}
                        if table == 'DISPATCHCONSTRAINT':
                            kv['GENCONID_EFFECTIVEDATE'] = stamp(rng.choice(times).replace(hour=0, minute=0))
                            kv['GENCONID_VERSIONNO'] = rng.randint(1, 3)
                        rows.append(fill(rng, table, kv))
            elif table == 'DUDETAILSUMMARY':
                for u in rng.sample(NAMES['DUID'], rng.randint(1, 5)):
                    cuts = sorted({day_grid(rng, base) for _ in range(rng.randint(1, 5))})
                    for a, b in zip(cuts, cuts[1:] + [rng.choice([dt.datetime(2999, 12, 31), cuts[-1] + dt.timedelta(days=rng.choice([1, 400]))])]):
                        if rng.random() < 0.15:
                            continue
                        rows.append(fill(rng, table, {'DUID': u, 'START_DATE': stamp(a), 'END_DATE': stamp(b)}))
            elif table == 'INTERCONNECTOR':
                for n in rng.sample(NAMES['INTERCONNECTORID'], rng.randint(1, 4)):
                    rows.append(fill(rng, table, {'INTERCONNECTORID': n}))
            elif kind == 'hist' or table in EFF:
                for _ in range(rng.randint(1, 14)):
                    kv = {'EFFECTIVEDATE': stamp(day_grid(rng, base).replace(hour=0, minute=0) if rng.random() < 0.8 else day_grid(rng, base)), 'VERSIONNO': rng.randint(1, 3 if kind == 'hist' else vmax)}
                    for k in keys:
                        if k in NAMES:
                            kv[k] = rng.choice(NAMES[k])
                    reps = [kv]
                    if table == 'LOSSMODEL':
                        if typed:
                            kv['LOSSSEGMENT'] = 1
                        else:
                            reps = [dict(kv, LOSSSEGMENT=s) for s in range(1, rng.randint(2, 5))]
                    if table == 'LOSSFACTORMODEL' and not typed:
                        reps = [dict(kv, REGIONID=s) for s in rng.sample(NAMES['REGIONID'], rng.randint(1, 3))]
                    key = tuple(kv[k] for k in (['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO'] if table in BYRES else keys))
                    if key in seen:
                        continue
                    seen.add(key)
                    for x in reps:
                        rows.append(fill(rng, table, x))
            rng.shuffle(rows)
            return cols, rows

        names = ['DISPATCHINTERCONNECTORRES', 'DISPATCHCONSTRAINT'] + rng.sample([t for t in TABLES if t not in ('DISPATCHINTERCONNECTORRES', 'DISPATCHCONSTRAINT')], rng.randint(3, 7)) + rng.sample(['BYINTERVAL', 'BYDAY'], rng.randint(0, 2))
        ops.append({'op': 'create'})
        exp.append(None)
        for n in names:
            cols, rows = gen(n)
            content[n] = [dict(zip(cols, r)) for r in rows]
            if n in ('BYINTERVAL', 'BYDAY'):
                ops.append({'op': 'create', 'table': n})
                exp.append(None)
            multi = n in ('BYINTERVAL', 'BYDAY') or TABLES[n][2] == 'multi'
            ops.append({'op': 'insert', 'table': n, 'data': {'cols': cols, 'rows': rows, 'types': {c: 'obj' for c in cols if c in NAMES or c in TEXTCOL or 'DATE' in c}},
                        'mode': 'append' if typed or multi else 'replace'})
            exp.append(None)
        for n in names:
            ops.append({'op': 'dump', 'table': n})
            exp.append(('dump', n, None))
        q = []
        for _ in range(rng.randint(3, 12)):
            n = rng.choice(names)
            cand = [x for x in times] + [t + dt.timedelta(minutes=5 * rng.choice([-1, 1])) for t in times]
            if n == 'DUDETAILSUMMARY' or n in EFF:
                for r in content[n]:
                    s = dt.datetime.strptime(r.get('START_DATE') or r.get('EFFECTIVEDATE'), '%Y/%m/%d %H:%M:%S')
                    cand += [s, s - dt.timedelta(minutes=5)]
                if n in BYRES:
                    cand = times
            t = rng.choice(cand)
            op = {'op': 'get', 'table': n}
            if n != 'INTERCONNECTOR':
                op['t'] = stamp(t)
            ops.append(op)
            exp.append(('get', n, op.get('t')))
        for n in names:
            ops.append({'op': 'dump', 'table': n})
            exp.append(('dump', n, None))
        job = {'kind': 'db', 'ops': ops, 'extra': extra}
        r = ctx.run(job)
        if r is None:
            return
        ctx.replay = {'job': job}
        for op, e, o in zip(ops, exp, r['res']):
            if not o.get('ok'):
                ctx.fail('lookup', '%s %s at %s raised %s: %s' % (op['op'], op.get('table'), op.get('t'), o.get('err'), o.get('msg')))
                return
            if e is None:
                continue
            k, n, t = e
            if k == 'dump':
                m = cmp_tab(content[n], o['ret'])
                if m:
                    ctx.fail('stored', 'table %s is not what was inserted: %s' % (n, m))
                continue
            want = self.inforce(content, n, t)
            ctx.count('lookups')
            ctx.count('rows_in_force', len(want))
            ctx.count('rows_left_out', len(content[n]) - len(want))
            if want and len(want) < len(content[n]):
                ctx.nontrivial = True
            m = cmp_tab(want, o['ret'])
            if m:
                ctx.fail('in-force', '%s at %s: %s' % (n, t, m))
        ctx.sig = hashlib.md5(json.dumps(job, sort_keys=True).encode()).hexdigest()
        ctx.sample = {'tables': {n: len(content[n]) for n in names}, 'lookups': [(e[1], e[2]) for e in exp if e and e[0] == 'get'][:5]}

    def inforce(self, content, n, t):
        rows = content[n]
        if n == 'BYINTERVAL':
            return [r for r in rows if r['INTERVAL_DATETIME'] == t]
        if n == 'BYDAY':
            d = dt.datetime.strptime(t, '%Y/%m/%d %H:%M:%S')
            if (d.hour, d.minute) < (4, 5):
                d -= dt.timedelta(days=1)
            return [r for r in rows if r['SETTLEMENTDATE'] == d.strftime('%Y/%m/%d 00:00:00')]
        kind = TABLES[n][2]
        if kind == 'multi':
            return [r for r in rows if r['SETTLEMENTDATE'] == t]
        if n == 'INTERCONNECTOR':
            return rows
        if n == 'DUDETAILSUMMARY':
            return [r for r in rows if r['START_DATE'] <= t < r['END_DATE']]
        if kind == 'hist':
            inv = [r for r in content['DISPATCHCONSTRAINT'] if r['SETTLEMENTDATE'] == t]
            return [r for r in rows for c in inv if r['GENCONID'] == c['CONSTRAINTID'] and r['EFFECTIVEDATE'] == c['GENCONID_EFFECTIVEDATE'] and r['VERSIONNO'] == c['GENCONID_VERSIONNO']]
        ids = [k for k in TABLES[n][1] if k not in ('EFFECTIVEDATE', 'VERSIONNO', 'LOSSSEGMENT') and not (k == 'REGIONID' and n == 'LOSSFACTORMODEL')]
        best = {}
        for r in rows:
            if r['EFFECTIVEDATE'] <= t:
                k = tuple(r[i] for i in ids)
                best[k] = max(best.get(k, ('', 0)), (r['EFFECTIVEDATE'], r['VERSIONNO']))
        out = [r for r in rows if best.get(tuple(r[i] for i in ids)) == (r['EFFECTIVEDATE'], r['VERSIONNO'])]
        if n in BYRES:
            act = {r['INTERCONNECTORID'] for r in content['DISPATCHINTERCONNECTORRES'] if r['SETTLEMENTDATE'] == t}
            out = [r for r in out if r['INTERCONNECTORID'] in act]
        return out


def months(a, b):
    y, m = a
    out = []
    while (y, m) <= b:
        out.append((y, m))
        m += 1
        if m == 13:
            y, m = y + 1, 1
    return out


def prev(ym):
    return (ym[0], ym[1] - 1) if ym[1] > 1 else (ym[0] - 1, 12)


class Populate:
    ID = 'C23'
    CASES = {'quick': 500, 'thorough': 6000}
    RULE = ('one evaluation = a history of populations, monthly loads and table replacements on one scratch database against a web stand-in publishing generated monthly files (with '
            'intervention rows, duplicates, missing files, older layouts); after every step all affected tables are dumped and compared with the rows published, each exactly once; '
            'non-trivial = rows were filtered or a fault occurred')
    MIN_EVENTS = {'tables_conserved': 300, 'intervention_rows_published': 100, 'faults': 10}
    ASSUMPTIONS = ['files published for different months hold different settlement times, as AEMO\'s do', 'the web stand-in answers at the HTTP layer with AEMO\'s file layout (comment, header, rows, end marker)']

    def gen_file(self, rng, table, y, m):
        cols, keys, kind = TABLES[table]
        extra = ['INTERVENTION'] if table.startswith('DISPATCH') else []
        allc = ['RUNNO'] + cols + extra + ['LASTCHANGED']
        rng.shuffle(allc)
        rows = []
        if kind == 'multi':
            idc = [k for k in keys if k != 'SETTLEMENTDATE'][0]
            ends = dt.datetime(y + (m == 12), m % 12 + 1, 1)
            ts = sorted({dt.datetime(y, m, 1, 0, 5), ends, dt.datetime(y, m, rng.randint(1, 28), 12, 0)})
            if rng.random() < 0.3:
                ts = ts[:1]
            for t in ts:
                for n in rng.sample(NAMES[idc], rng.randint(1, 3)):
                    for iv in ([0, 1] if rng.random() < 0.3 else [1] if rng.random() < 0.05 else [0]):
                        kv = {'SETTLEMENTDATE': stamp(t), idc: n, 'INTERVENTION': iv, 'RUNNO': 1, 'LASTCHANGED': stamp(t)}
                        if table == 'DISPATCHCONSTRAINT':
                            kv['GENCONID_EFFECTIVEDATE'] = '2018/01/01 00:00:00'
                            kv['GENCONID_VERSIONNO'] = rng.randint(1, 3)
                        row = [kv[c] if c in kv else value(rng, c) for c in allc]
                        rows.append(row)
                        if rng.random() < 0.1:
                            rows.append(list(row))
        else:
            seen = set()
            for _ in range(rng.randint(1, 6)):
                kv = {'RUNNO': 1, 'LASTCHANGED': stamp(dt.datetime(y, m, 1)), 'EFFECTIVEDATE': rng.choice(['2012/05/01 00:00:00', '2016/07/01 00:00:00', '2019/01/01 00:00:00']), 'VERSIONNO': rng.randint(1, 12),
                      'START_DATE': rng.choice(['2012/05/01 00:00:00', '2016/07/01 00:00:00', '2019/01/01 00:00:00']), 'END_DATE': '2999/12/31 00:00:00', 'LOSSSEGMENT': rng.randint(1, 5)}
                for k in keys:
                    if k in NAMES:
                        kv[k] = rng.choice(NAMES[k])
                key = tuple(kv[k] for k in keys)
                if key in seen:
                    continue
                seen.add(key)
                rows.append([kv[c] if c in kv else value(rng, c) for c in allc])
            if kind == 'hist' and rng.random() < 0.08:      # an older layout without one of the columns
                c = rng.choice([c for c in cols if c not in keys])
                i = allc.index(c)
                allc = allc[:i] + allc[i + 1:]
                rows = [r[:i] + r[i + 1:] for r in rows]
            if table == 'DUDETAILSUMMARY' and rng.random() < 0.5:   # before bidirectional units
                i = allc.index('SECONDARY_TLF')
                allc = allc[:i] + allc[i + 1:]
                rows = [r[:i] + r[i + 1:] for r in rows]
        rng.shuffle(rows)
        return {'cols': allc, 'rows': rows}

    def rows_for(self, table, t):
        """rows of one published file as the database should hold them"""
        cols, keys, kind = TABLES[table]
        out, seen = [], set()
        for r in t['rows']:
            d = dict(zip(t['cols'], r))
            if kind == 'multi' and d.get('INTERVENTION', 0) != 0:
                continue
            k = tuple(d[x] for x in keys)
            if kind == 'multi' and k in seen:
                continue
            seen.add(k)
            out.append({c: d.get(c) for c in cols})
        return out

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        full = rng.random() < 0.35
        y0, m0 = rng.choice([(2019, 1), (2018, 12), (2024, 7), (2024, 8), (2024, 6), (2013, 1), (2012, 12), (2020, rng.randint(1, 12)), (2011, 2), (2024, 12), (2025, 1)])
        span = months((y0, m0), (y0 + 1, 12))[:rng.choice([1, 1, 2, 3, 13 if not full else 4])]
        all_months = [prev((y0, m0))] + span
        mms = {}
        multis = [t for t in TABLES if TABLES[t][2] == 'multi']
        use = list(TABLES) if full else rng.sample(list(TABLES), rng.randint(1, 4))
        for t in use:
            kind = TABLES[t][2]
            if kind == 'multi' or kind == 'single':
                ms = all_months
            else:
                back = months((2010, 1), span[-1])
                ms = sorted(set(rng.sample(back, min(len(back), rng.randint(1, 6)))) | ({span[-1]} if rng.random() < 0.7 else set()))
                if rng.random() < 0.3:
                    ms = sorted(set(ms) | {(2010, 1)})
            for y, m in ms:
                mms['%s/%04d%02d' % (t, y, m)] = self.gen_file(rng, t, y, m)
        ops, exp = [], []
        state = {}
        if full:
            job_faults = []
            for step in range(rng.choice([1, 1, 2])):
                i = rng.randrange(len(span))
                j = rng.randrange(i, len(span))
                (ya, ma), (yb, mb) = span[i], span[j]
                need = [prev((ya, ma))] + months((ya, ma), (yb, mb))
                if rng.random() < 0.3:
                    key = '%s/%04d%02d' % ((rng.choice(multis),) + rng.choice(need))
                    mms[key] = {'status': rng.choice([404, 403, 500])}
                    job_faults.append(key)
                ops.append({'op': 'populate', 'kw': dict(start_year=ya, start_month=ma, end_year=yb, end_month=mb, verbose=rng.random() < 0.3)})
                exp.append(('populate', (need, (yb, mb))))
                for t in TABLES:
                    ops.append({'op': 'dump', 'table': t})
                    exp.append(('dump', t))
        else:
            ops.append({'op': 'create'})
            exp.append(('create', None))
            for step in range(rng.randint(2, 8)):
                t = rng.choice(use)
                y, m = rng.choice(all_months)
                if rng.random() < 0.1:
                    y, m = y + 30, m
                ops.append({'op': 'add' if TABLES[t][2] == 'multi' else 'set', 'table': t, 'y': y, 'm': m})
                exp.append((ops[-1]['op'], (t, y, m)))
                for x in use:
                    ops.append({'op': 'dump', 'table': x})
                    exp.append(('dump', x))
        job = {'kind': 'db', 'ops': ops, 'mms': mms}
        r = ctx.run(job, timeout=300)
        if r is None:
            return
        ctx.replay = {'job': job}
        for t in TABLES:
            state[t] = []
        ctx.count('intervention_rows_published', sum(1 for t in mms.values() if 'cols' in t and 'INTERVENTION' in t['cols'] for x in t['rows'] if x[t['cols'].index('INTERVENTION')]))
        partial = None
        loaded = {t: set() for t in TABLES}

        def published(t, y, m):
            f = mms.get('%s/%04d%02d' % (t, y, m))
            return f if f and 'cols' in f else None

        def hist(t, y, m):
            out, seen = [], set()
            cols, keys, _ = TABLES[t]
            for q in reversed(months((2010, 1), (y, m))):
                f = published(t, *q)
                if f is None or any(c not in f['cols'] for c in cols):
                    continue
                for row in self.rows_for(t, f):
                    k = tuple(row[x] for x in keys)
                    if k not in seen:
                        seen.add(k)
                        out.append(row)
            return out

        for op, (k, e), o in zip(ops, exp, r['res']):
            if k == 'create':
                continue
            if k == 'dump':
                if not o.get('ok'):
                    if partial is not None and e not in loaded:
                        continue
                    ctx.fail('dump', 'table %s cannot be read: %s' % (e, o.get('msg')))
                    continue
                ctx.count('tables_conserved')
                if partial is not None:
                    # a population stopped half way: whatever is stored must be published rows, each at most once
                    okrows = [norm_text([x])[0] for x in partial(e)]
                    got = norm_text(rows_of(o['ret']))
                    pool = list(okrows)
                    for g in got:
                        for i, x in enumerate(pool):
                            if all(same(x[c], g.get(c)) for c in x):
                                del pool[i]
                                break
                        else:
                            ctx.fail('partial', 'after an interrupted population table %s holds a row that was not published or is duplicated: %s' % (e, {c: g[c] for c in TABLES[e][1]}))
                            break
                    continue
                m = cmp_tab(state[e], o['ret'])
                if m:
                    ctx.fail('conservation', 'after %s table %s: %s' % (last, e, m))
                continue
            if k == 'populate':
                need, end = e
                last = 'populate %s' % (op['kw'],)
                miss = [(t, q) for t in multis for q in need if published(t, *q) is None]
                miss += [(t, end) for t in TABLES if TABLES[t][2] == 'single' and published(t, *end) is None]
                if miss:
                    ctx.count('faults')
                    ctx.nontrivial = True
                    if o.get('ok'):
                        ctx.fail('missing-file', '%s returned although %s was not available' % (last, miss[0]))
                    before = {t: list(state[t]) for t in TABLES}

                    def partial(t, need=need, end=end, before=before):
                        if TABLES[t][2] == 'multi':
                            return [x for q in need if published(t, *q) for x in self.rows_for(t, published(t, *q))]
                        return (hist(t, *end) if TABLES[t][2] == 'hist' else self.rows_for(t, published(t, *end)) if published(t, *end) else []) + before[t]
                    continue
                partial = None
                if not o.get('ok'):
                    ctx.fail('populate', '%s raised %s: %s' % (last, o.get('err'), o.get('msg')))
                    return
                ctx.count('populations')
                for t in TABLES:
                    kind = TABLES[t][2]
                    if kind == 'multi':
                        state[t] = [x for q in need for x in self.rows_for(t, published(t, *q))]
                    elif kind == 'single':
                        state[t] = self.rows_for(t, published(t, *end))
                    else:
                        h = hist(t, *end)
                        state[t] = h
                continue
            t, y, m = e
            last = '%s %s %04d-%02d' % (k, t, y, m)
            f = published(t, y, m)
            if k == 'add':
                rows = self.rows_for(t, f) if f else None
                if f is None:
                    ctx.count('faults')
                    ctx.nontrivial = True
                    if o.get('ok'):
                        ctx.fail('missing-file', '%s returned although the file was not available' % last)
                elif (y, m) in loaded[t]:
                    ctx.count('repeated_loads')      # refused or ignored, but nothing may change
                else:
                    ctx.count('month_loads')
                    if not o.get('ok'):
                        ctx.fail('add', '%s raised %s: %s' % (last, o.get('err'), o.get('msg')))
                        return
                    loaded[t].add((y, m))
                    state[t] = state[t] + rows
                    ctx.nontrivial = True
            elif TABLES[t][2] == 'single':
                if f is None:
                    ctx.count('faults')
                    if o.get('ok'):
                        ctx.fail('missing-file', '%s returned although the file was not available' % last)
                else:
                    ctx.count('replacements')
                    if not o.get('ok'):
                        ctx.fail('set', '%s raised %s: %s' % (last, o.get('err'), o.get('msg')))
                        return
                    state[t] = self.rows_for(t, f)
                    ctx.nontrivial = True
            else:
                h = hist(t, y, m)
                ctx.count('history_loads')
                if not o.get('ok'):
                    ctx.fail('set', '%s raised %s: %s' % (last, o.get('err'), o.get('msg')))
                    return
                if h:
                    state[t] = h
                    ctx.nontrivial = True
        ctx.sig = hashlib.md5(json.dumps([ops, sorted(mms)], sort_keys=True).encode()).hexdigest()
        ctx.sample = {'ops': [(o_['op'], o_.get('table') or o_.get('kw')) for o_ in ops if o_['op'] != 'dump'][:4], 'files': len(mms)}


CHECKS = [Lookup(), Populate()]
