"""C27: markets and tables are independent of each other."""
import copy, json, random
import checks_bids, checks_network, checks_units
from mcheck import sig_of, choose
from gen_market import Market
from checks_layout import optional, index
from checks_market import BIG
from checks_hist_state import differ

HOW = ['numbers', 'names', 'rows', 'cols', 'add']


HISTORIES = [checks_network.Network, checks_units.Units, checks_bids.Bids]


class Captured(Exception):
    pass


class Capture:
    """stands in for the context of another check, to use its generator only"""

    def __init__(self, ctx):
        self.ctx, self.job, self.stats, self.findings, self.tier, self.seed = ctx, None, {}, [], ctx.tier, ctx.seed

    def count(self, *a, **k):
        pass

    fail = count

    def run(self, job, timeout=0):
        self.job = job
        raise Captured()


class Isolation:
    ID = 'C27'
    CASES = {'quick': 500, 'thorough': 9000}
    PROFILES = [(3, ['load', 'bdu', 'capacity', 'ramp', 'uigf', 'elastic']), (2, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu', 'elastic']),
                (3, ['inter', 'losses', 'links', 'transloss', 'generic', 'load', 'elastic']), (2, ['generic', 'fcas', 'load', 'bdu', 'inter', 'elastic']),
                (2, ['faststart', 'fsprofile', 'ramp', 'load', 'elastic']), (1, ['ties', 'tiebreak', 'load', 'capacity']), (2, ['ramp', 'capacity', 'inter']),
                (1, BIG + ['elastic']), (1, ['inter', 'losses', 'fcas', 'generic', 'rerun', 'hostile', 'elastic'])]
    RULE = ('one evaluation = two or three markets alive in one process, some of their calls given the same table objects (equal tables are one object, calls are repeated with it), their '
            'calls interleaved at random, tables overwritten by their owner once the last call that needs them is over and reports overwritten after they were read; the monitor compares '
            'every table before and after each call it is passed to, and every outcome and report with those of the same market run alone with its own tables; non-trivial = a table object '
            'was used by more than one call and a dispatch was compared; distinct = hash of the programs and the schedule')
    ASSUMPTIONS = ['a market run alone in the same process is the reference; what it should report is the business of the other properties']
    MIN_EVENTS = {'tables_watched': 5000, 'shared_uses': 3000, 'scribbles': 1500, 'reports_compared': 600, 'builder_results_compared': 2000}

    def history(self, ctx, rng, seed, idx):
        """one interval's builders, asked for everything twice, the caller overwriting what it was handed in between"""
        cap = Capture(ctx)
        try:
            rng.choice(HISTORIES)().case(cap, seed, idx)
        except Captured:
            pass
        job = cap.job
        if job is None or job.get('kind') != 'hist':
            ctx.count('no_history')
            return
        ops = []
        for o in job['ops']:
            ops.append(o)
            if o['op'] in ('call', 'losses'):
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append(o)
        again = [o for o in ops if o['op'] in ('call', 'losses')]
        ops += [o for o in rng.sample(again, len(again))[:6]]
        plain = dict(job, ops=ops)
        over = dict(job, watch=True, ops=[dict(o, overwrite=rng.choice(HOW)) if rng.random() < 0.7 else o for o in ops])
        ctx.sig = sig_of(over)
        ctx.replay = {'job': over, 'plain': plain}
        a = ctx.run(plain)
        b = ctx.run(over)
        if a is None or b is None:
            return
        n = 0
        for o, x, y in zip(ops, a['res'], b['res']):
            ctx.count('builder_results_compared')
            if 'err' in x or 'err' in y:
                if x.get('err') != y.get('err'):
                    ctx.fail('builder-shared', '%s: %s with untouched tables, %s after overwriting what was handed out' % (o.get('name', o['op']), x.get('msg') or 'accepted', y.get('msg') or 'accepted'))
                    return
                continue
            n += 1
            d = differ(x.get('ret'), y.get('ret'))
            if d:
                ctx.fail('builder-shared', '%s returns otherwise after overwriting what was handed out before: %s' % (o.get('name', o['op']), d))
                return
        for name, d in b['touched']:
            ctx.count('tables_watched')
            if d:
                ctx.fail('table-changed', '%s changed a table given to it: %s' % (name, d))
        ctx.nontrivial = n > 5
        ctx.sample = {'interval': job['interval'], 'requests': len(ops)}

    def case(self, ctx, seed, idx):
        rng = random.Random(seed ^ 0xC27)
        if rng.random() < 0.25:
            return self.history(ctx, rng, seed, idx)
        feats = choose(rng, self.PROFILES)
        if rng.random() < 0.4:
            feats = [f for f in feats if f not in ('load', 'bdu')]
        base = Market(seed, feats).build()
        if rng.random() < 0.6:
            optional(rng, base)
        if rng.random() < 0.5:
            index(rng, base)
        jobs = [base]
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.65:
                b = copy.deepcopy(base)
                if rng.random() < 0.5:
                    b['calls'] = [c for c in b['calls'] if c.get('m') not in ('set_unit_bid_capacity_constraints', 'set_fcas_max_availability', 'set_tie_break_constraints') or rng.random() < 0.5]
            else:
                b = Market(seed + 7919, feats).build()
                if rng.random() < 0.5:
                    optional(rng, b)
            jobs.append(b)
        tables, seen, programs, uses = {}, {}, [], {}

        def ref(t, p):
            key = json.dumps(t, sort_keys=True)
            if key in seen and rng.random() < 0.85:
                return {'$t': seen[key]}
            tid = 't%d' % len(tables)
            tables[tid] = t
            seen[key] = tid
            return {'$t': tid}

        for p, j in enumerate(jobs):
            calls = [{'m': '__init__', 'a': {'unit_info': ref(j['unit_info'], p)}}]
            for c in j['calls']:
                if c.get('m') is None:
                    continue
                a = {k: ref(v, p) if isinstance(v, dict) and 'cols' in v else v for k, v in c.get('a', {}).items()}
                calls.append({'m': c['m'], 'a': a})
                if c['m'] == 'dispatch':
                    calls.append({'report': True})
                    if rng.random() < 0.3:
                        calls += [{'m': 'dispatch', 'a': a}, {'report': True}]
                elif rng.random() < 0.25:
                    calls.append({'m': c['m'], 'a': a})       # given the same objects again
            programs.append({'regions': j['regions'], 'dispatch_interval': j.get('dispatch_interval', 5), 'calls': calls})
        # schedule: interleaved, or one after the other as in a loop over intervals
        left = [list(range(len(p['calls']))) for p in programs]
        order = []
        if rng.random() < 0.35:
            for p in range(len(left)):
                order += [(p, n) for n in left[p]]
        else:
            while any(left):
                p = rng.choice([i for i, l in enumerate(left) if l])
                for _ in range(rng.choice([1, 1, 2, 5])):
                    if left[p]:
                        order.append((p, left[p].pop(0)))
        last = {}
        for at, (p, n) in enumerate(order):
            for v in programs[p]['calls'][n].get('a', {}).values():
                if isinstance(v, dict) and '$t' in v:
                    last[v['$t']] = at
                    uses[v['$t']] = uses.get(v['$t'], 0) + 1
        schedule = []
        for at, (p, n) in enumerate(order):
            s = {'step': [p, n]}
            if 'report' in programs[p]['calls'][n] and rng.random() < 0.6:
                s['scribble_reports'] = rng.choice(HOW)
            schedule.append(s)
            for t in [t for t in last if last[t] == at]:
                if rng.random() < 0.6:
                    schedule.append({'scribble': t, 'how': rng.choice(HOW)})
        job = {'kind': 'isolation', 'tables': tables, 'programs': programs, 'schedule': schedule}
        ctx.sig = sig_of(job)
        ctx.replay = {'job': job}
        res = ctx.run(job, 250)
        if res is None:
            return
        ctx.count('shared_uses', sum(n for n in uses.values() if n > 1))
        ctx.count('scribbles', res['scribbles'])
        for i, m, k, n, d in res['passed']:
            ctx.count('tables_watched')
            if d:
                ctx.fail('table-changed', '%s changed the table given as %s: %s' % (m, k, d))
        dispatched = 0
        for i, (a, b) in enumerate(zip(res['alone'], res['together'])):
            if len(a) != len(b):
                ctx.fail('interference', 'market %d: %d calls alone, %d together' % (i, len(a), len(b)))
                continue
            n = 0
            calls = programs[i]['calls']
            for c, x, y in zip(calls, a, b):
                what = c.get('m', 'report')
                if 'report' in x:
                    ctx.count('reports_compared')
                    dispatched += 1
                    d = differ(x['report'], y['report'])
                    if not d and 'again' in y:
                        ctx.count('reports_overwritten')
                        d = differ(y['report'], y['again'])
                        if d:
                            ctx.fail('report-shared', 'market %d: overwriting a report changed the next one: %s' % (i, d))
                    elif d:
                        ctx.fail('interference', 'market %d reports otherwise than when run alone: %s' % (i, d))
                    continue
                ctx.count('calls_compared')
                if ('err' in x) != ('err' in y) or x.get('err') != y.get('err'):
                    ctx.fail('interference', 'market %d: %s alone %s, together %s' % (i, what, x.get('msg') or 'accepted', (y.get('err', ''), y.get('msg')) if 'err' in y else 'accepted'))
        ctx.nontrivial = dispatched > 0 and any(n > 1 for n in uses.values())
        ctx.sample = {'markets': len(programs), 'calls': sum(len(p['calls']) for p in programs), 'tables': len(tables), 'shared': sum(1 for n in uses.values() if n > 1)}


CHECKS = [Isolation()]
