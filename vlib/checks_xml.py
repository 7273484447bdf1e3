"""C20 (interval -> file) and C21 (faithful extraction) over synthetic NEMDE interval files."""
import copy, datetime as dt, hashlib, json, random
import gen_interval as G

RANGES = [(2013, 2024)]
GETTERS = ['get_unit_initial_conditions', 'get_unit_fast_start_parameters', 'get_unit_volume_bids', 'get_unit_price_bids', 'get_UIGF_values', 'get_violations',
           'get_constraint_violation_prices', 'is_intervention_period', 'get_constraint_rhs', 'get_constraint_type', 'get_constraint_region_lhs',
           'get_constraint_unit_lhs', 'get_constraint_interconnector_lhs', 'get_market_interconnector_link_bid_availability', 'get_service_prices']
NOT_IN_LOADER = {'is_intervention_period', 'get_service_prices'}


def rand_time(rng):
    k = rng.random()
    y = rng.randint(2013, 2024)
    if k < 0.25:       # around the market day boundary
        t = dt.datetime(y, rng.randint(1, 12), rng.randint(1, 28), 4, rng.choice([0, 5, 10]))
    elif k < 0.4:      # midnight around month and year ends
        t = dt.datetime(y, rng.randint(1, 12), 1) + dt.timedelta(minutes=5 * rng.choice([-1, 0, 1, 47, 48, 49, 50]))
    elif k < 0.5:
        t = dt.datetime(y, 1, 1) + dt.timedelta(minutes=5 * rng.choice([-1, 0, 1, 48, 49, -288]))
    elif k < 0.58:
        t = dt.datetime(rng.choice([2016, 2020, 2024, 2019]), 2, 28) + dt.timedelta(minutes=5 * rng.randint(0, 2 * 288))
    else:
        t = dt.datetime(y, 1, 1) + dt.timedelta(minutes=5 * rng.randint(0, 365 * 288))
    return t


def norm(v):
    return v


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return type(a) == type(b) and a == b


def rows_of(tab):
    return [dict(zip(tab['cols'], r)) for r in tab['rows']]


def sortkey(r, cols):
    return json.dumps([r.get(c) if not isinstance(r.get(c), float) else round(r.get(c), 6) for c in cols], default=str)


def compare_rows(exp, got_tab):
    """multiset comparison of rows on the expected columns; returns message or None"""
    if not isinstance(got_tab, dict) or 'cols' not in got_tab:
        return 'not a table: %r' % (got_tab,)
    got = rows_of(got_tab)
    if exp:
        cols = list(exp[0])
        missing = [c for c in cols if c not in got_tab['cols']]
        if missing:
            return 'columns %s missing' % missing
    else:
        return None if not got else 'expected no rows, got %s' % got[:2]
    strs = [c for c in cols if isinstance(exp[0][c], str)]
    e = sorted(exp, key=lambda r: (json.dumps([str(r[c]) for c in strs]), sortkey(r, cols)))
    g = sorted(got, key=lambda r: (json.dumps([str(r.get(c)) for c in strs]), sortkey(r, cols)))
    if len(e) != len(g):
        ek = [tuple(str(r[c]) for c in strs) for r in e]
        gk = [tuple(str(r.get(c)) for c in strs) for r in g]
        return '%d rows expected, %d returned; lost %s, extra %s' % (len(e), len(g), [k for k in ek if ek.count(k) > gk.count(k)][:3], [k for k in gk if gk.count(k) > ek.count(k)][:3])
    for a, b in zip(e, g):
        for c in cols:
            if not same(a[c], b.get(c)):
                return '%s: %s expected %r, returned %r' % ([a[s] for s in strs], c, a[c], b.get(c))
    return None


def compare(name, exp, got):
    if isinstance(exp, list):
        return compare_rows(exp, got)
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return 'not a mapping'
        for k in exp:
            if k not in got or not same(exp[k], got[k]):
                return '%s expected %r, returned %r' % (k, exp[k], got.get(k))
        x = set(got) - set(exp)
        return 'unexpected entries %s' % sorted(x) if x else None
    return None if bool(exp) == bool(got) else 'expected %r, returned %r' % (exp, got)


class Extract:
    ID = 'C21'
    CASES = {'quick': 1500, 'thorough': 20000}
    RULE = ('one evaluation = one history over one cache manager: several synthetic interval files are loaded in a random order (repeats included) and every extractor is '
            'called, through the manager or the loader, and its table compared row by row with the record the file was written from; non-trivial = at least one file has missing '
            'optional attributes or an intervention; distinct = hash of the files')
    ASSUMPTIONS = ['interval files are synthetic: no NEMDE file is available offline, the element and attribute names are those the extractors and documentation name',
                   'collections that always hold several entries in practice (traders, initial conditions, constraints, interconnector offers) have at least two']
    MIN_EVENTS = {'tables_compared': 1000, 'intervention_files': 50}

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        n = rng.randint(1, 3)
        t0 = rand_time(rng)
        recs, files, texts = [], {}, []
        for i in range(n):
            t = t0 + dt.timedelta(minutes=5 * i) if rng.random() < 0.6 else rand_time(rng)
            if any(r['interval'] == G.stamp(t) for r in recs):
                continue
            rec = G.random_record(rng, t)
            recs.append(rec)
            texts.append(G.to_xml(rec, rng))
            files[G.interval_file(t, rng.random() < 0.2)] = len(texts) - 1
        truths = [G.truth(r) for r in recs]
        ops, exp = [], []
        for step in range(rng.randint(1, 3) + len(recs) - 1):
            i = rng.randrange(len(recs)) if step >= len(recs) else step
            ops.append({'op': 'load', 't': recs[i]['interval'], 'via': rng.choice(['manager', 'loader'])})
            exp.append(None)
            gs = list(GETTERS)
            rng.shuffle(gs)
            for g in gs + [rng.choice(gs)]:
                ops.append({'op': 'get', 'name': g, 'via': 'loader' if g not in NOT_IN_LOADER and rng.random() < 0.5 else 'manager'})
                exp.append((i, g))
        job = {'kind': 'xml', 'files': files, 'texts': texts, 'ops': ops}
        r = ctx.run(job)
        if r is None:
            return
        ctx.replay = {'job': job}
        for op, e, o in zip(ops, exp, r['res']):
            if e is None:
                ctx.count('loads')
                if not o.get('ok'):
                    ctx.fail('load', 'cached interval %s could not be loaded: %s %s' % (op['t'], o.get('err'), o.get('msg')))
                    return
                continue
            i, g = e
            if not o.get('ok'):
                ctx.fail('extract', '%s(%s) raised %s: %s' % (g, recs[i]['interval'], o.get('err'), o.get('msg')))
                continue
            ctx.count('tables_compared')
            x = truths[i][g]
            ctx.count('values_compared', sum(len(q) for q in x) if isinstance(x, list) else 1)
            m = compare(g, x, o['ret'])
            if m:
                ctx.fail('extract', '%s(%s): %s' % (g, recs[i]['interval'], m))
        iv = sum(1 for x in recs if x['intervention'])
        ctx.count('intervention_files', iv)
        ctx.count('files', len(recs))
        miss = any(v is None for x in recs for t in x['traders'] for b in t['trades'] for v in b['bands'])
        ctx.nontrivial = bool(iv or miss)
        ctx.sig = hashlib.md5('\n'.join(texts).encode()).hexdigest()
        ctx.sample = {'intervals': [x['interval'] for x in recs], 'interventions': iv, 'traders': [len(x['traders']) for x in recs]}


class Files:
    ID = 'C20'
    CASES = {'quick': 700, 'thorough': 12000}
    RULE = ('one evaluation = one history over one cache: loads, failed loads, name queries, populations and violation searches at time stamps biased to the 04:05 market day '
            'start and to month and year ends, with a web stand-in that serves, garbles, refuses or lacks each market day; every load is judged by the content of the file it must '
            'come from; non-trivial = a download or a failure happened; distinct = hash of the history')
    ASSUMPTIONS = ['the web stand-in answers at the HTTP layer; file naming and URL follow AEMO\'s NEMDE archive as documented in the code']
    MIN_EVENTS = {'loads_ok': 300, 'loads_missing': 50, 'downloads': 50}

    def minimal(self, rng, t):
        """a light record whose RHS identifies the interval"""
        rec = {'interval': G.stamp(t), 'intervention': False}
        rec['traders'] = [{'id': 'U%d' % i, 'type': 'GENERATOR', 'init': {'InitialMW': '1', 'AGCStatus': '1'}, 'fs': None, 'uigf': None,
                           'trades': [{'type': 'ENOF', 'dir': None, 'bands': ['1'] * 10, 'max': '1', 'rdn': '1', 'rup': '1'}],
                           'prices': [{'type': 'ENOF', 'dir': None, 'bands': ['1'] * 10}]} for i in range(2)]
        tag = (t - dt.datetime(2000, 1, 1)).total_seconds() / 300
        rec['constraints'] = [{'id': c, 'type': 'LE', 'price': '1', 'region': [], 'unit': [], 'inter': []} for c in ('A', 'B')]
        rec['inters'] = [{'id': 'I%d' % i, 'mnsp': False, 'from': 'A', 'to': 'B', 'offers': []} for i in range(2)]
        rec['constraint_solutions'] = [{'ConstraintID': 'TAG', 'Intervention': '0', 'RHS': str(int(tag))}, {'ConstraintID': 'B', 'Intervention': '0', 'RHS': '1'}]
        rec['case'] = {n: '1' for n in G.VPRICE.values()}
        v = {n: '0' for n in G.VIOL.values()}
        rec['viol'] = []
        if rng.random() < 0.4:
            for k in rng.sample(sorted(G.VIOL), rng.randint(1, 3)):
                v[G.VIOL[k]] = str(rng.choice([1, 0.5, 100, 0.0004, 0.02]))
                rec['viol'].append(k)
        rec['period_solutions'] = [dict(v, PeriodID='1', Intervention='0')]
        rec['case_solutions'] = [{'CaseID': '1', 'Intervention': '0'}]
        rec['region_solutions'] = [{'RegionID': x, 'Intervention': '0', 'EnergyPrice': '1'} for x in ('A', 'B')]
        rec['tag'] = int(tag)
        return rec

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        mode = rng.choice(['history'] * 36 + ['populate'] * 2 + ['search'] * 2)
        getattr(self, mode)(ctx, rng)
        ctx.count('mode_' + mode)

    # -- loads ------------------------------------------------------------------------------------------------
    def history(self, ctx, rng):
        base = rand_time(rng)
        pool = sorted({base + dt.timedelta(minutes=5 * rng.choice([0, 1, -1, 2, 287, 288, 289, -288, 48, -48, 12])) for _ in range(rng.randint(1, 5))} | {base})
        if rng.random() < 0.4:
            pool.append(rand_time(rng))
        texts, recs = [], {}
        for t in pool:
            recs[t] = self.minimal(rng, t)
            recs[t]['text'] = len(texts)
            texts.append(G.to_xml(recs[t]))
        cached, web = {}, {}
        for t in pool:
            k = rng.random()
            if k < 0.4:
                cached[G.interval_file(t)] = recs[t]['text']
            elif k < 0.5:
                cached[G.interval_file(t, True)] = recs[t]['text']
            elif k < 0.55:            # both: the plain file is this interval's, the over-constrained one is not to be read
                cached[G.interval_file(t)] = recs[t]['text']
                cached[G.interval_file(t, True)] = recs[rng.choice(pool)]['text']
        for t in pool:
            d = G.market_day(t).strftime('%Y%m%d')
            if rng.random() < 0.5:
                web.setdefault(d, {})
                if rng.random() < 0.85:
                    web[d][G.interval_file(t, rng.random() < 0.25)] = recs[t]['text']
        state = dict(cached)
        fails = {d: rng.choice([0, 0, 0, 1, 1, 2]) for d in web}
        fails = {d: n for d, n in fails.items() if n}
        job = {'kind': 'xml', 'files': cached, 'texts': texts, 'web': web, 'fail_first': fails, 'ops': [], 'refuse': rng.random() < 0.15}
        exp = []
        left = dict(fails)
        known = {}
        cur = None
        for _ in range(rng.randint(2, 8)):
            k = rng.random()
            if k < 0.12 and state:
                n = rng.choice(sorted(state))
                job['ops'].append({'op': 'rm', 'name': n})
                del state[n]
                exp.append(('rm', None))
                continue
            t = rng.choice(pool)
            job['ops'].append({'op': 'load', 't': G.stamp(t), 'via': rng.choice(['manager', 'loader'])})
            plain, ocd = G.interval_file(t), G.interval_file(t, True)
            d = G.market_day(t).strftime('%Y%m%d')
            dl = False
            if plain not in state and ocd not in state:
                dl = True
                # one retry is made when the first answer is not an archive; more failures mean missing
                tries = 0
                got = False
                while tries < 2:
                    tries += 1
                    if left.get(d, 0) > 0:
                        left[d] -= 1
                        continue
                    if d in web:
                        state.update(web[d])
                        got = True
                    break
                if not got and left.get(d) is not None:
                    left[d] = left[d]
            if plain in state:
                want = state[plain]
            elif ocd in state:
                want = state[ocd]
            else:
                want = None
            exp.append(('load', (t, want, dl, plain if plain in state else ocd if ocd in state else None)))
            for g in rng.sample(['tag', 'name', 'path', 'cached', 'ocd'], rng.randint(1, 5)):
                op = {'tag': {'op': 'get', 'name': 'get_constraint_rhs'}, 'name': {'op': 'call', 'name': 'get_file_name'}, 'path': {'op': 'call', 'name': 'get_file_path'},
                      'cached': {'op': 'call', 'name': 'interval_inputs_in_cache'}, 'ocd': {'op': 'get', 'name': 'is_over_constrained_dispatch_rerun', 'via': 'loader'}}[g]
                job['ops'].append(op)
                exp.append((g, exp[-1][1] if exp[-1][0] == 'load' else cur))
                cur = exp[-1][1]
            cur = None
        r = ctx.run(job)
        if r is None:
            return
        ctx.replay = {'job': job}
        tagof = {recs[t]['text']: recs[t]['tag'] for t in pool}
        for op, (k, e), o in zip(job['ops'], exp, r['res']):
            if k == 'rm':
                continue
            t, want, dl, fname = e
            if k == 'load':
                if dl:
                    ctx.count('downloads')
                    ctx.nontrivial = True
                if want is None:
                    ctx.count('loads_missing')
                    ctx.nontrivial = True
                    if o.get('ok'):
                        ctx.fail('missing-reported', 'interval %s is neither cached nor downloadable but load_interval returned' % op['t'])
                    elif 'MissingDataError' not in o.get('mro', []) and not (job['refuse'] and 'RequestException' in o.get('mro', [])):
                        ctx.fail('missing-reported', 'interval %s is missing: expected MissingDataError, got %s: %s' % (op['t'], o.get('err'), o.get('msg')))
                else:
                    ctx.count('loads_ok')
                    if not o.get('ok'):
                        ctx.fail('load', 'interval %s is available as %s but loading raised %s: %s' % (op['t'], fname, o.get('err'), o.get('msg')))
                        return
                if dl != bool(o['web']):
                    ctx.fail('download', 'interval %s %s' % (op['t'], 'was cached but the archive was asked for it' if o['web'] else 'was not cached and the archive was not asked'))
                continue
            ctx.count('observations')
            if k == 'tag':
                if want is None:
                    if o.get('ok'):
                        ctx.fail('stale-data', 'after the failed load of %s the reader returned data (%s)' % (G.stamp(t), o['ret']['rows'][:1]))
                else:
                    got = dict((a, b) for a, b in o['ret']['rows']) if o.get('ok') else None
                    if not got or int(got.get('TAG', -1)) != tagof[want]:
                        ctx.fail('own-file', 'interval %s returned data of another interval: tag %s, expected %d (%s)' % (G.stamp(t), got, tagof[want], fname))
            elif k == 'name' and want is not None:
                if o.get('ret') != fname:
                    ctx.fail('file-name', 'interval %s: file name %s, expected %s' % (G.stamp(t), o.get('ret'), fname))
            elif k == 'path' and want is not None:
                if str(o.get('ret')).split('/')[-1] != fname:
                    ctx.fail('file-name', 'interval %s: file path %s, expected %s' % (G.stamp(t), o.get('ret'), fname))
            elif k == 'cached':
                if bool(o.get('ret')) != (want is not None):
                    ctx.fail('in-cache', 'interval %s: in cache reported %s' % (G.stamp(t), o.get('ret')))
            elif k == 'ocd':
                if not o.get('ok') or bool(o.get('ret')) != bool(fname and 'OCD' in fname):
                    ctx.fail('over-constrained', 'interval %s (file %s): over-constrained rerun reported %s' % (G.stamp(t), fname, o.get('ret', o.get('err'))))
        ctx.sig = hashlib.md5(json.dumps([job['ops'], sorted(job['files']), sorted(web)], default=str).encode()).hexdigest()
        ctx.sample = {'ops': [(o['op'], o.get('t') or o.get('name')) for o in job['ops'][:6]], 'cached': sorted(cached)[:3], 'served': sorted(web)[:3]}

    # -- population ------------------------------------------------------------------------------------------------
    def populate(self, ctx, rng):
        t0 = rand_time(rng)
        s = t0.date()
        if rng.random() < 0.25:
            s = s.replace(day=1, month=rng.choice([s.month, s.month, 12, 11]))
            months = rng.choice([0, 0, 0, 1])
            em, ey = s.month + months, s.year
            if em > 12:
                em, ey = 1, ey + 1
            nm, ny = (em + 1, ey) if em < 12 else (1, ey + 1)
            e = dt.date(ny, nm, 1) - dt.timedelta(days=1)
            op = {'op': 'call', 'name': 'populate', 'kw': dict(start_year=s.year, start_month=s.month, end_year=ey, end_month=em, verbose=rng.random() < 0.5)}
        else:
            e = s + dt.timedelta(days=rng.choice([0, 0, 1, 2, 3]))
            op = {'op': 'call', 'name': 'populate_by_day', 'kw': dict(start_year=s.year, start_month=s.month, start_day=s.day, end_year=e.year, end_month=e.month, end_day=e.day, verbose=rng.random() < 0.5)}
        rec = self.minimal(rng, t0)
        text = G.to_xml(rec)
        texts = [text]
        web = {}
        d = s - dt.timedelta(days=4)
        while d <= e + dt.timedelta(days=3):
            web[d.strftime('%Y%m%d')] = {'NEMSPDOutputs_%s%03d00.loaded' % (d.strftime('%Y%m%d'), i): 0 for i in range(1, 289)}
            d += dt.timedelta(days=1)
        # only the interval numbers matter for coverage: write small files
        texts = [text]
        job = {'kind': 'xml', 'files': {}, 'texts': texts, 'web': web, 'ops': [op, {'op': 'ls'}]}
        r = ctx.run(job, timeout=300)
        if r is None:
            return
        ctx.replay = {'op': op}
        o = r['res'][0]
        ctx.nontrivial = True
        ctx.sig = json.dumps(op['kw'], sort_keys=True)
        ctx.count('populations')
        ctx.count('downloads', len(o['web']))
        if not o.get('ok'):
            ctx.fail('populate', '%s(%s) raised %s: %s' % (op['name'], op['kw'], o.get('err'), o.get('msg')))
            return
        have = set(r['res'][1]['ret'])
        t = dt.datetime(s.year, s.month, s.day)
        end = dt.datetime(e.year, e.month, e.day) + dt.timedelta(days=1)
        while t < end:
            if G.interval_file(t) not in have:
                ctx.fail('populate-covers', '%s(%s): no file for %s (%s)' % (op['name'], {k: v for k, v in op['kw'].items() if k != 'verbose'}, G.stamp(t), G.interval_file(t)))
                return
            t += dt.timedelta(minutes=5)
            ctx.count('intervals_covered')

    # -- search for violated intervals -----------------------------------------------------------------------------
    def search(self, ctx, rng):
        y, m = rng.randint(2013, 2024), rng.choice(list(range(1, 13)) + [11, 11, 12, 12, 12, 12])
        span = rng.choice([0, 0, 0, 1])
        em, ey = (m + span, y) if m + span <= 12 else (1, y + 1)
        a = dt.datetime(y, m, 1)
        b = dt.datetime(ey + (em == 12), em % 12 + 1, 1)
        limit = rng.choice([1, 1, 2, 3, 100])
        texts, files, web = [], {}, {}
        recs = []
        for _ in range(rng.randint(1, 12)):
            k = rng.random()
            if k < 0.2:
                t = a + dt.timedelta(minutes=5 * rng.randint(1, 60))
            elif k < 0.4:
                t = b - dt.timedelta(minutes=5 * rng.randint(1, 60))
            elif k < 0.5:
                t = rng.choice([a, b]) + dt.timedelta(minutes=5 * rng.choice([-3, -2, 3, 2, 0]))
            else:
                t = a + dt.timedelta(minutes=5 * rng.randint(1, int((b - a).total_seconds() / 300) - 1))
            if any(x[0] == t for x in recs):
                continue
            rec = self.minimal(rng, t)
            recs.append((t, rec))
            texts.append(G.to_xml(rec))
            if rng.random() < 0.6:
                files[G.interval_file(t)] = len(texts) - 1
            else:
                web.setdefault(G.market_day(t).strftime('%Y%m%d'), {})[G.interval_file(t)] = len(texts) - 1
        op = {'op': 'call', 'name': 'find_intervals_with_violations', 'kw': dict(limit=limit, start_year=y, start_month=m, end_year=ey, end_month=em)}
        job = {'kind': 'xml', 'files': files, 'texts': texts, 'web': web, 'ops': [op]}
        r = ctx.run(job, timeout=300)
        if r is None:
            return
        ctx.replay = {'job': job}
        o = r['res'][0]
        ctx.nontrivial = True
        ctx.sig = hashlib.md5(json.dumps([op['kw'], [G.stamp(t) for t, _ in recs]], sort_keys=True).encode()).hexdigest()
        ctx.count('searches')
        if not o.get('ok'):
            ctx.fail('search', 'find_intervals_with_violations(%s) raised %s: %s' % (op['kw'], o.get('err'), o.get('msg')))
            return
        # intervals strictly inside the months; the two boundary stamps belong to no agreed side and may or may not be reported
        exp = {G.stamp(t): sorted(x['viol']) for t, x in recs if a < t < b and x['viol']}
        order = sorted(exp)
        got = {k: sorted(v) for k, v in o['ret'].items()}
        edge = {G.stamp(a), G.stamp(b)}
        inner = [k for k in got if k not in edge]
        # a boundary stamp that was reported counts towards the limit like any other
        want = [k for k in sorted(set(order) | (edge & set(got)))][:limit]
        ctx.count('violated_intervals', len(want))
        ctx.count('december_searches', em == 12)
        if sorted(got) != want:
            ctx.fail('search', 'find_intervals_with_violations(%s) found %s, expected %s' % (op['kw'], sorted(got)[:5], want[:5]))
        for k in inner:
            if k not in exp or got[k] != exp[k]:
                ctx.fail('search', 'interval %s reported as violating %s, recorded %s' % (k, got[k], exp.get(k)))
        if len(got) > limit:
            ctx.fail('search', 'more than %d intervals returned' % limit)


CHECKS = [Files(), Extract()]
