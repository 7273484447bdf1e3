"""C16: malformed tables and misplaced calls are refused with the documented error and change nothing."""
import copy, random
from mcheck import MarketCheck, sig_of, summary_sample, choose
from gen_market import Market, FCAS, CONT
from checks_market import BIG
from checks_hist_state import BIDS, INTER, differ

ALL = ['energy'] + FCAS
REG = ['raise_reg', 'lower_reg']
R, P = 'real', 'nonneg'            # finite number, finite number >= 0; F: any float


def S(dt, **cols):
    return dt, cols


def s(names=None, opt=False):
    return {'t': 'str', 'names': names, 'opt': opt}


def f(kind, opt=False):
    return {'t': 'float', 'k': kind, 'opt': opt}


def i(kind=P, names=None, opt=False):
    return {'t': 'int', 'k': kind, 'names': names, 'opt': opt}


TRAP = dict(max_availability=f(P), enablement_min=f(R), low_break_point=f(R), high_break_point=f(R), enablement_max=f(R), dispatch_type=s(['generator', 'load'], True))
BANDS = lambda k: {str(b): f(k, b > 1) for b in range(1, 11)}
# (method, argument) -> (keys, columns); dispatch_type 'iff' : present exactly when unit_info has it
SPEC = {
    ('set_unit_volume_bids', 'volume_bids'): (['unit', 'service', 'dispatch_type'], dict(unit=s('unit'), service=s(ALL, True), dispatch_type='iff', **BANDS(P))),
    ('set_unit_price_bids', 'price_bids'): (['unit', 'service', 'dispatch_type'], dict(unit=s('unit'), service=s(ALL, True), dispatch_type='iff', **BANDS(R))),
    ('set_unit_bid_capacity_constraints', 'unit_limits'): (['unit', 'dispatch_type'], dict(unit=s('unit'), dispatch_type='iff', capacity=f(P))),
    ('set_unconstrained_intermittent_generation_forecast_constraint', 'unit_limits'): (['unit'], dict(unit=s('unit'), capacity=f(P))),
    ('set_unit_ramp_rate_constraints', 'ramp_details'): (['unit', 'dispatch_type'], dict(unit=s('unit'), dispatch_type='iff', initial_output=f(R), ramp_up_rate=f(P), ramp_down_rate=f(P))),
    ('set_unit_ramp_rate_constraints', 'scada_ramp_rates'): (['unit'], dict(unit=s('unit'), scada_ramp_up_rate=f('any', True), scada_ramp_down_rate=f('any', True))),
    ('set_fast_start_constraints', 'fast_start_profiles'): (['unit'], dict(unit=s('unit'), end_mode=i(), time_in_end_mode=f(P), mode_two_length=f(P), mode_four_length=f(P), min_loading=f(P))),
    ('set_demand_constraints', 'demand'): (['region'], dict(region=s('region'), demand=f(R))),
    ('set_fcas_requirements_constraints', 'fcas_requirements'): (['set', 'region', 'service'], dict(set=s(), region=s('region'), service=s(ALL), volume=f(R), type=s(['<=', '=', '>='], True))),
    ('set_fcas_max_availability', 'fcas_max_availability'): (['unit', 'service', 'dispatch_type'], dict(unit=s('unit'), service=s(FCAS), max_availability=f(P), dispatch_type=s(['generator', 'load'], True))),
    ('set_joint_ramping_constraints_reg', 'scada_ramp_rates'): (['unit'], dict(unit=s('unit'), initial_output=f('any'), scada_ramp_up_rate=f('any'), scada_ramp_down_rate=f('any'))),
    ('set_joint_capacity_constraints', 'contingency_trapeziums'): (['unit', 'service', 'dispatch_type'], dict(unit=s('unit'), service=s(CONT), **TRAP)),
    ('set_energy_and_regulation_capacity_constraints', 'regulation_trapeziums'): (['unit', 'service', 'dispatch_type'], dict(unit=s('unit'), service=s(REG), **TRAP)),
    ('set_interconnectors', 'interconnector_directions_and_limits'): (['interconnector', 'link'], dict(
        interconnector=s(), link=s(opt=True), to_region=s('region'), from_region=s('region'), max=f(R), min=f(R), generic_constraint_factor=i(None, [1, -1], True),
        from_region_loss_factor=f(P, True), to_region_loss_factor=f(P, True))),
    ('set_interconnector_losses', 'loss_functions'): (['interconnector', 'link'], dict(interconnector=s(), link=s(opt=True), loss_function={'t': 'fn', 'opt': False}, from_region_loss_share=f('share'))),
    ('set_interconnector_losses', 'interpolation_break_points'): (['interconnector', 'link', 'loss_segment'], dict(interconnector=s(), link=s(opt=True), loss_segment=i(None), break_point=f(R))),
    ('set_generic_constraints', 'generic_constraint_parameters'): (['set'], dict(set=s(), type=s(['<=', '=', '>=']), rhs=f(R))),
    ('set_generic_constraints', 'violation_cost'): (['set'], dict(set=s(), cost=f(R))),
    ('link_units_to_generic_constraints', 'unit_coefficients'): (['set', 'unit', 'service'], dict(set=s(), unit=s('unit'), service=s(ALL), coefficient=f(R))),
    ('link_regions_to_generic_constraints', 'region_coefficients'): (['set', 'region', 'service'], dict(set=s(), region=s('region'), service=s(ALL), coefficient=f(R))),
    ('link_interconnectors_to_generic_constraints', 'interconnector_coefficients'): (['set', 'interconnector'], dict(set=s(), interconnector=s(), coefficient=f(R))),
    ('make_constraints_elastic', 'violation_cost'): (['set'], dict(set=s(), cost=f(R))),
}
UNIT_INFO = (['unit', 'dispatch_type'], dict(unit=s(), region=s('region'), dispatch_type=s(['generator', 'load'], True), loss_factor=f(P, True)))
RUN1 = (['unit'], dict(unit=s('unit'), current_mode=i()))
RUN2 = (['unit'], dict(unit=s('unit'), end_mode=i(), min_loading=f(P), time_since_end_of_mode_two=f('nan_nonneg')))
NOT_A_NAME = {'str': ['ZZ', '', 'nsw', 'a nother', 'energyy', 'Generator', 'raise_5mins']}


def spec_for(call, arg):
    if arg == 'fast_start_profiles' and call['m'] != 'set_fast_start_constraints':
        rt = call['a'].get('run_type')
        return RUN1 if rt == 'fast_start_first_run' else RUN2 if rt == 'fast_start_second_run' else None
    return SPEC.get((call['m'], arg))


def is_table(v):
    return isinstance(v, dict) and 'cols' in v and 'rows' in v


def setcol(t, c, vals, typ):
    j = t['cols'].index(c)
    for r, v in zip(t['rows'], vals):
        r[j] = v
    t.setdefault('types', {})
    t['types'] = dict(t['types'])
    t['types'][c] = typ


def col(t, c):
    j = t['cols'].index(c)
    return [r[j] for r in t['rows']]


def defect(rng, t, spec, job, method):
    """put one defect into table t; returns (what, {expected error}) or None"""
    keys, cols = spec
    dt = 'dispatch_type' in job['unit_info']['cols']
    cols = {c: (v if v != 'iff' else (s(['generator', 'load']) if dt else None)) for c, v in cols.items()}
    have = [c for c in t['cols'] if cols.get(c)]
    n = len(t['rows'])
    if not n:
        return None
    floats = [c for c in have if cols[c]['t'] == 'float']
    ints = [c for c in have if cols[c]['t'] == 'int']
    strs = [c for c in have if cols[c]['t'] == 'str']
    fns = [c for c in have if cols[c]['t'] == 'fn']
    kinds = ['missing', 'extra', 'type', 'type', 'value', 'value', 'value', 'name', 'name', 'repeat', 'repeat']
    if method == 'set_unit_price_bids':
        kinds += ['order'] * 5
    kind = rng.choice(kinds)
    row = rng.randrange(n)
    if kind == 'missing':
        must = [c for c in have if not cols[c]['opt']]
        c = rng.choice(must)
        j = t['cols'].index(c)
        t['cols'] = [x for x in t['cols'] if x != c]
        t['rows'] = [r[:j] + r[j + 1:] for r in t['rows']]
        return 'column %s missing' % c, {'MissingColumnError'}
    if kind == 'extra':
        extra = ['nonsense', 'Unit', 'price', '11', '0']
        if not dt and 'dispatch_type' in spec[1] and spec[1]['dispatch_type'] == 'iff' or method == 'set_unconstrained_intermittent_generation_forecast_constraint':
            extra += ['dispatch_type'] * 3
        c = rng.choice(extra)
        if c in t['cols']:
            return None
        t['cols'] = t['cols'] + [c]
        t['rows'] = [r + ['generator' if c == 'dispatch_type' else 1.0] for r in t['rows']]
        return 'unknown column %s' % c, {'UnexpectedColumn'}
    if kind == 'type':
        c = rng.choice(have)
        v = col(t, c)
        ty = cols[c]['t']
        if ty == 'float':
            how = rng.choice(['text', 'int', 'object'])
            if how == 'text':
                v[row] = 'abc'
                setcol(t, c, v, 'obj')
            elif how == 'int':
                setcol(t, c, [1] * n, 'int')
            else:
                setcol(t, c, v, 'obj')
            return 'column %s holds %s' % (c, how), {'ColumnDataTypeError'}
        if ty == 'int':
            how = rng.choice(['text', 'float'])
            if how == 'text':
                setcol(t, c, [str(x) for x in v], 'obj')
            else:
                setcol(t, c, [float(x) for x in v], 'float')
            return 'column %s holds %s' % (c, how), {'ColumnDataTypeError'}
        if ty == 'str':
            v[row] = rng.choice([1, 2.5, None])
            setcol(t, c, v, 'obj')
            return 'column %s holds %r' % (c, v[row]), {'ColumnDataTypeError'}
        setcol(t, c, [1.0] * n, 'float')
        return 'column %s holds numbers' % c, {'ColumnDataTypeError'}
    if kind == 'value':
        cand = [c for c in floats if cols[c]['k'] != 'any'] + [c for c in ints if cols[c].get('k') == P]
        if not cand:
            return None
        c = rng.choice(cand)
        k = cols[c]['k']
        v = col(t, c)
        if c in ints:
            v[row] = -rng.randint(1, 3)
            setcol(t, c, v, 'int')
            return 'negative value in %s' % c, {'ColumnValues'}
        bads = {R: [None, 'inf', '-inf'], P: [None, 'inf', '-inf', -0.5, -1e-3], 'share': [None, 'inf', '-inf', -0.25, 1.5, 1.01], 'nan_nonneg': [-1.0, -0.01]}[k]
        v[row] = rng.choice(bads)
        setcol(t, c, v, 'float')
        exp = {'ColumnValues'}
        if method == 'set_unit_price_bids':
            exp = {'ColumnValues'}
        return 'value %r in %s' % (v[row], c), exp
    if kind == 'name':
        cand = [c for c in strs if cols[c]['names']] + [c for c in ints if cols[c].get('names')]
        if not cand:
            return None
        c = rng.choice(cand)
        v = col(t, c)
        if c in ints:
            v[row] = rng.choice([0, 2, -2])
            setcol(t, c, v, 'int')
        else:
            names = cols[c]['names']
            names = [r[0] for r in job['unit_info']['rows']] if names == 'unit' else job['regions'] if names == 'region' else names
            bad = [x for x in NOT_A_NAME['str'] + [names[0] + '1', names[0][:-1], names[0] + ' '] + (ALL if c == 'service' else []) if x not in names]
            if c == 'type':
                bad += ['<', '==', 'LE', '=<']
            v[row] = rng.choice(bad)
            t['rows'] = [r[:] for r in t['rows']]
            setcol(t, c, v, 'obj')
        return 'value %r in %s' % (v[row], c), {'ColumnValues'}
    if kind == 'repeat':
        if method == 'unit_info':
            pass
        r = list(t['rows'][row])
        t['rows'] = [list(x) for x in t['rows']]
        t['rows'].insert(rng.randint(0, n), r)
        for c in floats:                      # same key, other numbers
            j = t['cols'].index(c)
            if isinstance(r[j], (int, float)) and method != 'set_unit_price_bids' and c not in keys and rng.random() < 0.7:
                r[j] = round(abs(r[j]) * 0.5, 4) if cols[c]['k'] != 'share' else 0.5
        if t.get('index') is not None:
            t['index'] = None
        return 'row %d repeated' % row, {'RepeatedRowError'}
    if kind == 'order':
        bands = sorted([c for c in t['cols'] if c.isdigit()], key=int)
        if len(bands) < 2:
            return None
        k = rng.randrange(len(bands) - 1)
        r = t['rows'][row]
        hi = r[t['cols'].index(bands[k + 1])]
        if not isinstance(hi, (int, float)):
            return None
        r[t['cols'].index(bands[k])] = hi + rng.choice([0.01, 1.0, 50.0])
        return 'price of band %s above band %s' % (bands[k], bands[k + 1]), {'BidsNotMonotonicIncreasing'}


def half_bdu(rng, call, job):
    """one side of a bidirectional unit left out"""
    arg = {'set_unit_volume_bids': 'volume_bids', 'set_unit_price_bids': 'price_bids', 'set_unit_ramp_rate_constraints': 'ramp_details'}.get(call['m'])
    names = [r[0] for r in job['unit_info']['rows']]
    both = [u for u in dict.fromkeys(names) if names.count(u) == 2]
    if not arg or not both:
        return None
    t = call['a'][arg]
    u, d = t['cols'].index('unit'), t['cols'].index('dispatch_type')
    sv = t['cols'].index('service') if 'service' in t['cols'] else None
    cand = [k for k, r in enumerate(t['rows']) if r[u] in both and (sv is None or r[sv] == 'energy')]
    if not cand or len(t['rows']) < 2:
        return None
    k = rng.choice(cand)
    t['rows'] = [r for j, r in enumerate(t['rows']) if j != k]
    t['index'] = None
    return 'only one side of a bidirectional unit', {'ModelBuildError'}


class Validate(MarketCheck):
    def bad(self, rng, call, job):
        c = copy.deepcopy(call)
        c.update(may_fail=True, refused=True)
        x = rng.random()
        if x < 0.12:
            d = half_bdu(rng, c, job)
            if d:
                c['expect'], c['defect'] = sorted(d[1]), d[0]
                return c
        if x < 0.15 and c['m'] == 'set_interconnector_losses':
            t = c['a'][rng.choice(['loss_functions', 'interpolation_break_points'])]
            j = t['cols'].index('interconnector')
            k = rng.randrange(len(t['rows']))
            t['rows'][k][j] += 'x'
            c['expect'], c['defect'] = ['ModelBuildError'], 'losses for an interconnector that was never added'
            return c
        if x < 0.25 and 'violation_cost' in c['a'] or (x < 0.2 and c['m'] in COSTED):
            v = rng.choice(['abc', [1.0], True, {'a': 1}, 'table'])
            if v == 'table' and c['m'] not in ('set_generic_constraints', 'set_fcas_requirements_constraints'):
                # a cost per set for constraints that have no sets
                v = {'cols': ['set', 'cost'], 'rows': [['S1', 5.0]]}
                c['expect'] = ['MissingColumnError']
            elif v == 'table':
                v = {'cols': ['set', 'cost'], 'rows': [['S1', 5.0], ['S1', 6.0]]}
                c['expect'] = ['RepeatedRowError']
            else:
                c['expect'] = ['ValueError']
            c['a']['violation_cost'] = v
            c['defect'] = 'violation cost %r' % (v,)
            return c
        args = [k for k, v in c['a'].items() if is_table(v) and spec_for(c, k)]
        if not args:
            return None
        k = rng.choice(args)
        d = defect(rng, c['a'][k], spec_for(c, k), job, c['m'])
        if not d:
            return None
        c['expect'], c['defect'] = sorted(d[1]), '%s: %s' % (k, d[0])
        if rng.random() < 0.15:
            d2 = defect(rng, c['a'][k], spec_for(c, k), job, c['m'])
            if d2:
                c['expect'] = ['RepeatedRowError', 'ColumnDataTypeError', 'MissingColumnError', 'UnexpectedColumn', 'ColumnValues', 'BidsNotMonotonicIncreasing', 'ModelBuildError', 'ValueError']
                c['defect'] += ' and ' + d2[0]
        return c

    def early(self, rng, job):
        """calls that come before what they depend on"""
        out = []
        for c in job['calls']:
            need = {'set_unit_price_bids', 'set_unit_bid_capacity_constraints', 'set_unconstrained_intermittent_generation_forecast_constraint', 'set_interconnector_losses'}
            if c.get('m') in need and rng.random() < 0.6:
                e = copy.deepcopy(c)
                e.update(may_fail=True, refused=True, expect=['ModelBuildError'], defect='called before what it depends on')
                out.append(e)
        if rng.random() < 0.5:
            out.append({'m': 'dispatch', 'a': {}, 'may_fail': True, 'refused': True, 'expect': ['ModelBuildError'], 'defect': 'nothing to dispatch'})
        return out

    def case(self, ctx, seed, idx):
        rng = random.Random(seed ^ 0xC16)
        feats = choose(rng, self.PROFILES)
        first = Market(seed, feats)
        base = first.build()
        other = Market(seed + 104729, feats, like=first).build()
        pool = {}
        for c in other['calls'] + base['calls']:
            if c.get('m') and c['m'] != 'dispatch':
                pool.setdefault(c['m'], []).append(c)
        if rng.random() < 0.15:
            return self.unit_info(ctx, rng, base)
        job = dict(base)
        calls = self.early(rng, base) if rng.random() < 0.3 else []
        for c in base['calls']:
            if c.get('m') == 'dispatch':
                if rng.random() < 0.2:
                    k = rng.choice(['no_such_key', 'demand ', 'Demand', '']) if rng.random() < 0.8 else 'tie_break_x'
                    calls.append({'m': 'make_constraints_elastic', 'a': {'constraints_key': k, 'violation_cost': 10.0}, 'may_fail': True, 'refused': True,
                                  'expect': ['ModelBuildError'], 'defect': 'unknown constraints key %r' % k})
                if rng.random() < 0.2:
                    a = {'allow_over_constrained_dispatch_re_run': True, 'energy_market_ceiling_price': 100.0, 'energy_market_floor_price': -10.0, 'fcas_market_ceiling_price': 50.0}
                    del a[rng.choice(sorted(a)[1:])]
                    calls.append({'m': 'dispatch', 'a': a, 'may_fail': True, 'refused': True, 'expect': ['ValueError'], 'defect': 're-run without price limits'})
                calls.append(copy.deepcopy(c))
                continue
            calls.append(copy.deepcopy(c))
            if c.get('m') and rng.random() < 0.6:
                for _ in range(rng.choice([1, 1, 2])):
                    b = self.bad(rng, rng.choice(pool[c['m']]), base)
                    if b:
                        calls.append(b)
        job['calls'] = calls
        ctx.sig = sig_of(job)
        ctx.replay = {'job': job}
        res = ctx.run(job)
        if res is None:
            return
        if 'err' in res['init']:
            ctx.fail('accept', 'well formed unit information refused: %s %s' % (res['init']['err'], res['init']['msg']))
            return
        for k, (c, r) in enumerate(zip(calls, res['calls'])):
            if 'report' in c:
                continue
            if c.get('refused'):
                ctx.count('malformed_calls')
                ctx.count('defects:' + c['expect'][0] if len(c['expect']) == 1 else 'defects:several')
                if 'err' not in r:
                    ctx.fail('refuse', '%s accepted although %s' % (c['m'], c['defect']))
                elif not set(c['expect']) & set(r['mro']):
                    ctx.fail('refuse', '%s with %s raised %s (%s) instead of %s' % (c['m'], c['defect'], r['err'], r['msg'][:120], ' or '.join(c['expect'])))
                else:
                    ctx.nontrivial = True
            elif c['m'] != 'dispatch':
                ctx.count('well_formed_calls')
                if 'err' in r:
                    ctx.fail('accept', '%s refused a well formed call: %s %s' % (c['m'], r['err'], r['msg']))
        if ctx.findings:
            return
        # nothing refused may have left a trace
        clean = dict(base)
        rb = ctx.run(clean)
        if rb is None:
            return
        ctx.count('markets_compared')
        same = [r for c, r in zip(calls, res['calls']) if not c.get('refused')]
        if len(same) == len(rb['calls']) and not differ(rb['calls'][-2:], same[-2:]):
            ctx.count('identical_markets')
            ctx.sample = {'malformed': [(c['m'], c['defect'], r['err']) for c, r in zip(calls, res['calls']) if c.get('refused')][:6]}
            return
        b = self.judge_all(clean, rb)
        if b.findings:
            ctx.count('attributed_elsewhere')
            return
        j = self.judge_all(job, res)
        ctx.replay['clean'] = clean
        for x in j.findings:
            ctx.fail(x['monitor'], 'after refused calls %s: %s' % ([(c['m'], c['defect']) for c in calls if c.get('refused')], x['msg']))

    def judge_all(self, job, res):
        from monitor import Judge
        at = max(k for k, c in enumerate(job['calls']) if c.get('m') == 'dispatch' and not c.get('refused'))
        j = Judge(job, res, at=at, stats={})
        if j.status():
            j.offers(); j.groups(); j.interconnectors(); j.optimal(); j.summary(); j.availability()
            if not job['calls'][at]['a'].get('allow_over_constrained_dispatch_re_run'):
                j.prices()
        return j

    def unit_info(self, ctx, rng, base):
        job = dict(base)
        t = copy.deepcopy(base['unit_info'])
        d = None
        while not d:
            t = copy.deepcopy(base['unit_info'])
            d = defect(rng, t, UNIT_INFO, base, 'unit_info')
        job['unit_info'] = t
        job['calls'] = []
        ctx.sig = sig_of(job)
        ctx.replay = {'job': job}
        res = ctx.run(job)
        if res is None:
            return
        r = res['init']
        ctx.count('malformed_calls')
        ctx.count('malformed_unit_info')
        ctx.nontrivial = True
        if 'err' not in r:
            ctx.fail('refuse', 'unit_info accepted although %s' % d[0])
        elif not d[1] & set(r['mro']):
            ctx.fail('refuse', 'unit_info with %s raised %s (%s) instead of %s' % (d[0], r['err'], r['msg'][:120], sorted(d[1])))


COSTED = ('set_unit_bid_capacity_constraints', 'set_unconstrained_intermittent_generation_forecast_constraint', 'set_unit_ramp_rate_constraints',
          'set_demand_constraints', 'set_fcas_requirements_constraints', 'set_fcas_max_availability', 'set_joint_capacity_constraints',
          'set_energy_and_regulation_capacity_constraints', 'set_generic_constraints')

C16 = Validate(
    ID='C16', CASES={'quick': 700, 'thorough': 12000},
    ASSUMPTIONS=['Types are those documented per column (np.float64, np.int64, str, callable); a table with no rows is neither well formed nor malformed.',
                 'With one defect the documented error class is required; with two in a table any documented class is accepted.'],
    PROFILES=[(3, ['load', 'bdu', 'capacity', 'ramp', 'uigf', 'elastic', 'lf']), (3, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu', 'elastic']),
              (3, ['inter', 'losses', 'links', 'transloss', 'generic', 'load', 'elastic']), (2, ['generic', 'fcas', 'load', 'bdu', 'inter', 'elastic']),
              (2, ['faststart', 'fsprofile', 'ramp', 'load', 'elastic', 'elastic:fast_start']), (1, BIG + ['elastic']),
              (1, ['inter', 'losses', 'fcas', 'generic', 'elastic'])],
    RULE='an execution counts when at least one malformed call was made on a market and refused with the documented error')

CHECKS = [C16]
