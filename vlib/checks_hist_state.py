"""C14: arbitrary call histories; every dispatch is judged against the last inputs only."""
import copy, random
from mcheck import MarketCheck, sig_of, summary_sample, choose
from gen_market import Market
from monitor import Judge
from checks_market import BIG, fast_start_limits

WANT = ('offers', 'group', 'degree', 'inter', 'objective', 'optimal', 'status', 'price', 'summary', 'availability')
BIDS = ('set_unit_volume_bids', 'set_unit_price_bids')
ON_BIDS = ('set_joint_ramping_constraints_reg', 'set_tie_break_constraints')
INTER = ('set_interconnectors', 'set_interconnector_losses')
KEYS = {'set_demand_constraints': ['demand'], 'set_fcas_requirements_constraints': ['fcas'], 'set_generic_constraints': ['generic'],
        'set_unit_bid_capacity_constraints': ['unit_bid_capacity'], 'set_fcas_max_availability': ['fcas_max_availability'],
        'set_joint_capacity_constraints': ['joint_capacity'], 'set_energy_and_regulation_capacity_constraints': ['energy_and_regulation_capacity'],
        'set_unconstrained_intermittent_generation_forecast_constraint': ['uigf_capacity'], 'set_fast_start_constraints': ['fast_start']}


def bad_call(rng, call):
    """a call that has to be refused: the table carries a column nobody knows, or a null number"""
    c = copy.deepcopy(call)
    ts = [k for k, v in c['a'].items() if isinstance(v, dict) and 'cols' in v and v['rows'] and k != 'violation_cost']
    if not ts:
        return None
    t = c['a'][rng.choice(ts)]
    t['cols'] = t['cols'] + ['nonsense']
    t['rows'] = [r + [1.0] for r in t['rows']]
    c.update(may_fail=True, refused=True)
    return c


def group_of(m):
    if m in BIDS:
        return 'bids'
    if m in INTER:
        return 'inter'
    if 'generic' in m:
        return 'generic'
    return m


class History(MarketCheck):
    def build(self, rng, seed):
        feats = choose(rng, self.PROFILES)
        first = Market(seed, feats)
        markets = [first] + [Market(seed + 7919 * k, feats, like=first) for k in range(1, rng.choice([2, 2, 3]))]
        jobs = [m.build() for m in markets]
        job = dict(jobs[0])
        body = [[c for c in j['calls'] if c.get('m') not in (None, 'dispatch')] for j in jobs]
        disp = [next(c for c in j['calls'] if c.get('m') == 'dispatch') for j in jobs]
        have_losses = False
        hist, phases = [], rng.choice([2, 2, 3, 4])
        order = list(range(len(jobs))) + [rng.randrange(len(jobs)) for _ in range(phases)]
        cur = {}                                   # method -> last call
        for p in range(phases):
            k = order[p]
            groups = []
            for c in body[k]:
                g = group_of(c['m'])
                if g not in groups:
                    groups.append(g)
            if p > 0 and p < phases - 1 or (p == phases - 1 and rng.random() < 0.5):
                groups = [g for g in groups if rng.random() < 0.5]
            if p == 0:
                groups = [g for g in groups if g in ('bids', 'inter', 'set_demand_constraints') or rng.random() < 0.85]
            calls = []
            for c in body[k]:
                g = group_of(c['m'])
                if g not in groups:
                    continue
                if c['m'] in ON_BIDS and 'bids' not in groups and 'set_unit_volume_bids' not in cur:
                    continue
                if g == 'inter' and 'set_interconnector_losses' in cur and not any(x['m'] == 'set_interconnector_losses' for x in body[k]):
                    continue
                c = copy.deepcopy(c)
                if p > 0 and c['m'] == 'set_fast_start_constraints' and rng.random() < 0.35:
                    t = c['a']['fast_start_profiles']      # the start up is over: nothing is left to constrain
                    for r in t['rows']:
                        r[t['cols'].index('end_mode')] = 5
                calls.append(c)
            if 'bids' in groups:
                # constraints made from the bids are set again after the bids change
                for m in ON_BIDS:
                    if m in cur and not any(c['m'] == m for c in calls):
                        calls.append(copy.deepcopy(cur[m]))
                calls.sort(key=lambda c: 0 if c['m'] in BIDS else (2 if c['m'] in ON_BIDS else 1))
            if any(c['m'] in INTER for c in calls):
                # interconnector terms and losses refer to interconnectors
                calls.sort(key=lambda c: 0 if c['m'] in BIDS + INTER else 1)
            out = []
            for c in calls:
                if p > 0 and rng.random() < 0.08:
                    b = bad_call(rng, c)
                    if b:
                        out.append(b)
                if rng.random() < 0.12:
                    # the same thing set twice in a row, with other numbers or another cost the first time
                    other = rng.choice([x for bd in body for x in bd if x['m'] == c['m']] or [c])
                    if c['m'] not in INTER and c['m'] not in BIDS and c['m'] not in ON_BIDS:
                        o = copy.deepcopy(other)
                        if c['m'] in KEYS and 'violation_cost' not in o['a'] and rng.random() < 0.5:
                            o['a']['violation_cost'] = float(rng.choice([3, 40, 500]))
                        out.append(o)
                out.append(c)
                cur[c['m']] = c
                if c['m'] == 'set_fast_start_constraints' and not fast_start_limits(c['a']['fast_start_profiles']):
                    continue            # creates nothing that could be made elastic
                if c['m'] in KEYS and rng.random() < 0.08:
                    out.append({'m': 'make_constraints_elastic', 'a': {'constraints_key': KEYS[c['m']][0], 'violation_cost': float(rng.choice([7, 90, 1000, 14000]))}})
            if 'set_fast_start_constraints' in cur and rng.random() < 0.25:
                out.append({'m': 'remove_fast_start_constraints', 'a': {}})
                cur.pop('set_fast_start_constraints')
            hist += out
            if p < phases - 1:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    hist.append(dict(copy.deepcopy(disp[k]), may_fail=True))
                    hist.append({'report': True, 'may_fail': True})
            else:
                for _ in range(2):
                    hist.append(dict(copy.deepcopy(disp[k]), may_fail=True))
                    hist.append({'report': True, 'may_fail': True})
        job['calls'] = hist
        return job

    def fresh(self, job, at):
        """the same final inputs given to a new market: the last accepted call of each method, elastic calls after them"""
        keep, removed = {}, -1
        for i, c in enumerate(job['calls'][:at]):
            if 'm' not in c or c.get('refused') or c['m'] == 'dispatch':
                continue
            k = c['m']
            if k == 'make_constraints_elastic':
                k = (k, c['a']['constraints_key'])
            if k == 'remove_fast_start_constraints':
                keep.pop('set_fast_start_constraints', None)
                keep.pop(('make_constraints_elastic', 'fast_start'), None)
                continue
            for key in KEYS.get(c['m'], []):
                keep.pop(('make_constraints_elastic', key), None)
            keep[k] = i
        j = dict(job)
        j['calls'] = [copy.deepcopy(job['calls'][i]) for i in sorted(keep.values())] + [copy.deepcopy(job['calls'][at]), {'report': True}]
        for c in j['calls']:
            c.pop('may_fail', None)
        return j

    def judged(self, ctx, job, res, at, stats):
        j = Judge(job, res, at=at, stats=stats)
        if j.status():
            j.offers(); j.groups(); j.interconnectors(); j.optimal(); j.summary(); j.availability()
            if not job['calls'][j.at]['a'].get('allow_over_constrained_dispatch_re_run'):
                j.prices()          # re-run prices follow their own rules (C13)
        return j

    def case(self, ctx, seed, idx):
        rng = random.Random(seed ^ 0xC14)
        job = self.build(rng, seed)
        ctx.sig = sig_of(job)
        ctx.replay = {'job': job}
        res = ctx.run(job)
        if res is None:
            return
        ds = [i for i, c in enumerate(job['calls']) if c.get('m') == 'dispatch']
        n = len(res['calls'])
        for i, c in enumerate(job['calls'][:n]):
            if c.get('refused'):
                ctx.count('refused_calls')
        for at in ds:
            if at >= n and 'err' not in res['calls'][-1]:
                continue
            j = self.judged(ctx, job, res, at, ctx.stats)
            ctx.count('dispatches_judged')
            if at == ds[-2]:
                ctx.sample = summary_sample(job, j.obs)
                ctx.nontrivial = j.obs is not None
            if j.findings:
                f = self.fresh(job, at)
                r = ctx.run(f)
                if r is None:
                    return
                b = self.judged(ctx, f, r, None, {})
                if b.findings:
                    ctx.count('attributed_elsewhere')
                    ctx.count('elsewhere: ' + b.findings[0]['monitor'] + ' ' + b.findings[0]['msg'][:60])
                    continue
                ctx.replay['fresh'] = f
                for x in j.findings:
                    ctx.fail(x['monitor'], 'dispatch at call %d, after earlier inputs, differs from a new market with the same final inputs: %s' % (at, x['msg']))
                return
        a, b = ds[-2], ds[-1]
        if n > b + 1 and 'err' not in res['calls'][a]:
            ctx.count('repeated_dispatches')
            d = differ(res['calls'][a + 1], res['calls'][b + 1])
            if d:
                ctx.fail('repeat', 'dispatching again without changes: %s' % d)
        elif n > b and ('err' in res['calls'][a]) != ('err' in res['calls'][b]):
            ctx.fail('repeat', 'dispatching again without changes: %s then %s' % (res['calls'][a], res['calls'][b]))


def differ(x, y, path='', tol=1e-6):
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y):
            return '%s: %s then %s' % (path, sorted(x), sorted(y))
        for k in x:
            if k in ('msg', 'at'):
                continue
            d = differ(x[k], y[k], path + '/' + k)
            if d:
                return d
        return None
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return '%s: %d then %d entries' % (path, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            d = differ(p, q, path + '/%d' % i)
            if d:
                return d
        return None
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return None if abs(x - y) <= tol * max(1.0, abs(x)) else '%s: %s then %s' % (path, x, y)
    return None if x == y else '%s: %s then %s' % (path, x, y)


C14 = History(
    ID='C14', CASES={'quick': 500, 'thorough': 9000},
    ASSUMPTIONS=['Constraints derived from the bids when they are set (joint ramping, tie breaks) are set again after the bids change, as the documentation of each method implies.',
                 'A difference is reported only when a new market given the same final inputs passes every monitor.'],
    PROFILES=[(3, ['load', 'bdu', 'capacity', 'ramp', 'uigf', 'elastic']), (3, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu', 'elastic']),
              (2, ['inter', 'losses', 'links', 'transloss', 'generic', 'load', 'elastic']), (2, ['generic', 'fcas', 'load', 'bdu', 'inter', 'elastic']),
              (2, ['faststart', 'fsprofile', 'ramp', 'load', 'elastic', 'elastic:fast_start']), (1, ['ties', 'tiebreak', 'load', 'capacity']),
              (1, BIG + ['elastic']), (1, ['inter', 'losses', 'fcas', 'generic', 'rerun', 'hostile', 'elastic']), (1, ['fcas', 'maxavail', 'hostile', 'elastic', 'load'])],
    RULE='an execution counts when a market with at least one earlier configuration phase was reconfigured and its final dispatch was judged against the last inputs')

CHECKS = [C14]
