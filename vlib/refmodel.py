"""Independent reference model of the market, written from the documentation.

Input: the recorded program (tables given to the market).  Never sees nempy's internals.
Builds one explicit linear / mixed integer program and solves it with HiGHS (scipy).
"""
import math
import numpy as np
from scipy.optimize import milp, linprog, LinearConstraint, Bounds
from scipy.sparse import csr_matrix

DEEP = [False]    # confirming a finding: solve everything a second way as well
REG = ('raise_reg', 'lower_reg')


def rows(t):
    """list of dicts"""
    return [dict(zip(t['cols'], r)) for r in t['rows']]


def num(x):
    if x is None:
        return float('nan')
    return float(x)


def fn_eval(spec, x):
    if 'poly' in spec:
        return sum(k * x ** i for i, k in enumerate(spec['poly']))
    if 'absq' in spec:
        a, b = spec['absq']
        return a * abs(x) + b * x * x
    if 'pw' in spec:
        return float(np.interp(x, spec['pw'][0], spec['pw'][1]))
    raise ValueError


class State:
    """What the market was last told, per group (later calls replace earlier ones)."""

    def __init__(self, job):
        self.regions = job['regions']
        self.T = job.get('dispatch_interval', 5)
        self.units = {}
        for r in rows(job['unit_info']):
            side = r.get('dispatch_type', 'generator')
            self.units[(r['unit'], side)] = (r['region'], num(r.get('loss_factor', 1.0)))
        names = [u for u, _ in self.units]
        self.bdu = {u for u in names if names.count(u) == 2}
        self.g = {}          # group -> inputs
        self.elastic = {}    # group -> cost (float) or {set: cost}

    def apply(self, c):
        m, a = c['m'], c.get('a', {})
        vc = a.get('violation_cost')
        keymap = {
            'set_unit_bid_capacity_constraints': ['unit_bid_capacity'],
            'set_unconstrained_intermittent_generation_forecast_constraint': ['uigf_capacity'],
            'set_unit_ramp_rate_constraints': ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down'],
            'set_fast_start_constraints': ['fast_start'],
            'set_demand_constraints': ['demand'],
            'set_fcas_requirements_constraints': ['fcas'],
            'set_fcas_max_availability': ['fcas_max_availability'],
            'set_joint_ramping_constraints_reg': ['joint_ramping_raise_reg', 'joint_ramping_lower_reg',
                                                  'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu'],
            'set_joint_capacity_constraints': ['joint_capacity'],
            'set_energy_and_regulation_capacity_constraints': ['energy_and_regulation_capacity'],
            'set_generic_constraints': ['generic'],
        }
        if m in keymap:
            self.g[m] = a
            if m == 'set_joint_ramping_constraints_reg':
                # the services offered when the call is made are the ones covered
                self.g['_reg_sides'] = {(b['unit'], b['side'], b['service']) for b in self.bids() if b['service'] in REG}
            for k in keymap[m]:
                self.elastic.pop(k, None)
                if vc is not None:
                    self.elastic[k] = self._cost(vc)
        elif m == 'make_constraints_elastic':
            self.elastic[a['constraints_key']] = self._cost(a['violation_cost'])
        elif m == 'remove_fast_start_constraints':
            self.g.pop('set_fast_start_constraints', None)
            self.elastic.pop('fast_start', None)
        elif m == 'dispatch':
            self.g['dispatch'] = a
        else:
            self.g[m] = a

    @staticmethod
    def _cost(v):
        if isinstance(v, dict):
            return {r['set']: num(r['cost']) for r in rows(v)}
        return float(v)

    def bids(self):
        out = []
        if 'set_unit_volume_bids' not in self.g:
            return out
        for r in rows(self.g['set_unit_volume_bids']['volume_bids']):
            for b in range(1, 11):
                v = r.get(str(b))
                if v is not None and float(v) >= 0.0001:
                    out.append({'unit': r['unit'], 'side': r.get('dispatch_type', 'generator'),
                                'service': r.get('service', 'energy'), 'band': str(b), 'volume': float(v)})
        return out


def build_state(job, upto=None):
    s = State(job)
    for c in job['calls'][:upto]:
        if 'm' in c and not c.get('refused'):
            s.apply(c)
    return s


class LP:
    def __init__(self):
        self.cost = []
        self.lb = []
        self.ub = []
        self.integer = []
        self.names = []
        self.cons = []   # dict(group,key,coef{var:c},sense,rhs,deficit vars)

    def var(self, name, lb, ub, cost=0.0, integer=0):
        self.names.append(name)
        self.cost.append(cost)
        self.lb.append(lb)
        self.ub.append(ub)
        self.integer.append(integer)
        return len(self.names) - 1

    def con(self, group, key, coef, sense, rhs, market=False):
        c = {'group': group, 'key': key, 'coef': {k: v for k, v in coef.items() if v != 0.0}, 'sense': sense, 'rhs': rhs, 'def': []}
        self.cons.append(c)
        return c

    def matrix(self):
        n = len(self.names)
        R, C, V, lo, hi = [], [], [], [], []
        for i, c in enumerate(self.cons):
            for k, v in c['coef'].items():
                R.append(i); C.append(k); V.append(v)
            for k, v in c['def']:
                R.append(i); C.append(k); V.append(v)
            lo.append(c['rhs'] if c['sense'] in ('>=', '=') else -np.inf)
            hi.append(c['rhs'] if c['sense'] in ('<=', '=') else np.inf)
        A = csr_matrix((V, (R, C)), shape=(len(self.cons), n))
        return A, np.array(lo), np.array(hi)

    def solve(self, lb=None, ub=None, relax_int=False, rhs_shift=None, time_limit=60, deep=False):
        A, lo, hi = self.matrix()
        if rhs_shift:
            lo = lo.copy(); hi = hi.copy()
            for i, d in rhs_shift.items():
                lo[i] += d; hi[i] += d
        lb = np.array(self.lb if lb is None else lb, float)
        ub = np.array(self.ub if ub is None else ub, float)
        integ = np.zeros(len(self.names)) if relax_int else np.array(self.integer)
        best, found = None, None

        def run(lb, ub, integ, presolve):
            return milp(np.array(self.cost, float), constraints=LinearConstraint(A, lo, hi), bounds=Bounds(lb, ub), integrality=integ,
                        options={'mip_rel_gap': 1e-12, 'time_limit': time_limit, 'presolve': presolve})

        for presolve in (True, False):
            r = run(lb, ub, integ, presolve)
            if r.status == 0:
                s = {'status': 'optimal', 'obj': float(r.fun), 'x': r.x}
                if integ.any():
                    # the MIP solver occasionally stops short: settle the continuous part again
                    l2, u2 = lb.copy(), ub.copy()
                    m = integ > 0
                    l2[m] = u2[m] = np.round(r.x[m])
                    p = run(l2, u2, np.zeros(len(self.names)), True)
                    if p.status == 0 and p.fun < r.fun:
                        s = {'status': 'optimal', 'obj': float(p.fun), 'x': p.x}
                if found is None or s['obj'] < found['obj']:
                    found = s
                if not (deep or DEEP[0]):
                    return found
                continue
            best = r
            if r.status == 1:
                return found or {'status': 'timeout'}
        if found:
            return found
        if best.status == 2:
            return {'status': 'infeasible'}
        return {'status': 'other:%s' % best.message}


class Ref:
    """Reference model of a State."""

    def __init__(self, st, big=None):
        self.st = st
        self.lp = LP()
        self.bid = {}      # (unit,side,service) -> [(var, volume, price)]
        self.flow = {}     # (inter, link) -> var
        self.loss = {}     # (inter, link) -> var
        self.seg = {}      # (inter, link) -> list of (segment binary, xl, xr, yl, yr, tl)
        self.inter = {}
        self.tie_pairs = []
        self._bids()
        self._inter()
        self._market()
        self._unit()
        self._fcas_unit()
        self._generic()
        self._tie()
        self._elastic()

    # ---- helpers
    def E(self, unit, side, service, k=1.0, into=None):
        into = {} if into is None else into
        for v, _, _ in self.bid.get((unit, side, service), []):
            into[v] = into.get(v, 0.0) + k
        return into

    def net(self, unit, k=1.0, into=None):
        into = self.E(unit, 'generator', 'energy', k, into)
        return self.E(unit, 'load', 'energy', -k, into)

    def energy(self, unit, side, k=1.0, into=None):
        """energy of one side (positive), or net output for bidirectional units when side is 'net'"""
        return self.E(unit, side, 'energy', k, into)

    def _bids(self):
        st = self.st
        prices = {}
        if 'set_unit_price_bids' in st.g:
            for r in rows(st.g['set_unit_price_bids']['price_bids']):
                for b in range(1, 11):
                    if r.get(str(b)) is not None:
                        prices[(r['unit'], r.get('dispatch_type', 'generator'), r.get('service', 'energy'), str(b))] = float(r[str(b)])
        for b in st.bids():
            region, lf = st.units[(b['unit'], b['side'])]
            p = prices.get((b['unit'], b['side'], b['service'], b['band']), 0.0)
            cost = p
            if b['service'] == 'energy':
                cost = p / lf
                if b['side'] == 'load':
                    cost = -cost
            v = self.lp.var(('bid', b['unit'], b['side'], b['service'], b['band']), 0.0, b['volume'], cost)
            self.bid.setdefault((b['unit'], b['side'], b['service']), []).append((v, b['volume'], cost))

    def _inter(self):
        st = self.st
        if 'set_interconnectors' not in st.g:
            return
        lp = self.lp
        for r in rows(st.g['set_interconnectors']['interconnector_directions_and_limits']):
            link = r.get('link', r['interconnector'])
            key = (r['interconnector'], link)
            self.inter[key] = {'to': r['to_region'], 'from': r['from_region'], 'tl': num(r.get('to_region_loss_factor', 1.0)),
                               'fl': num(r.get('from_region_loss_factor', 1.0)), 'gcf': float(r.get('generic_constraint_factor', 1)),
                               'max': num(r['max']), 'min': num(r['min']), 'share': None}
            self.flow[key] = lp.var(('flow',) + key, num(r['min']), num(r['max']))
        # directional links: at most one of an interconnector's links carries flow
        by = {}
        for (i, l) in self.flow:
            if i != l:
                by.setdefault(i, []).append((i, l))
        for i, keys in by.items():
            if len(keys) < 2:
                continue
            zs = {}
            for k in keys:
                z = lp.var(('linkon',) + k, 0, 1, 0.0, 1)
                zs[z] = 1.0
                f = self.flow[k]
                lp.con('_sos', k, {f: 1.0, z: -max(self.inter[k]['max'], 0.0)}, '<=', 0.0)
                lp.con('_sos', k, {f: 1.0, z: -min(self.inter[k]['min'], 0.0)}, '>=', 0.0)
            lp.con('_sos', i, zs, '<=', 1.0)
        if 'set_interconnector_losses' not in st.g:
            return
        a = st.g['set_interconnector_losses']
        bps = {}
        for r in rows(a['interpolation_break_points']):
            bps.setdefault((r['interconnector'], r.get('link', r['interconnector'])), []).append((int(r['loss_segment']), float(r['break_point'])))
        for r in rows(a['loss_functions']):
            key = (r['interconnector'], r.get('link', r['interconnector']))
            self.inter[key]['share'] = num(r['from_region_loss_share'])
            pts = [x for _, x in sorted(bps[key])]
            ys = [fn_eval(r['loss_function'], x) for x in pts]
            order = sorted(range(len(pts)), key=lambda i: pts[i])
            pts = [pts[i] for i in order]; ys = [ys[i] for i in order]
            self.inter[key]['pts'] = pts
            self.inter[key]['ys'] = ys
            bound = max(abs(self.inter[key]['max']), abs(self.inter[key]['min']))
            L = lp.var(('loss',) + key, -bound, bound)
            self.loss[key] = L
            f = self.flow[key]
            fc, lc, one = {f: -1.0}, {L: -1.0}, {}
            segs = []
            for s in range(len(pts) - 1):
                z = lp.var(('seg',) + key + (s,), 0, 1, 0.0, 1)
                t = lp.var(('t',) + key + (s,), 0, 1)
                segs.append((z, t, s))
                one[z] = 1.0
                lp.con('_sos2', key, {t: 1.0, z: -1.0}, '<=', 0.0)
                fc[z] = pts[s]; fc[t] = pts[s + 1] - pts[s]
                lc[z] = ys[s]; lc[t] = ys[s + 1] - ys[s]
            self.seg[key] = segs
            lp.con('_sos2', key, fc, '=', 0.0)
            lp.con('_sos2', key, lc, '=', 0.0)
            lp.con('_sos2', key, one, '=', 1.0)

    def balance(self, region):
        st, c = self.st, {}
        for (u, side, svc), bands in self.bid.items():
            if svc == 'energy' and st.units[(u, side)][0] == region:
                self.E(u, side, svc, 1.0 if side == 'generator' else -1.0, c)
        for k, d in self.inter.items():
            f = self.flow[k]
            if d['to'] == region:
                c[f] = c.get(f, 0.0) + d['tl']
            if d['from'] == region:
                c[f] = c.get(f, 0.0) - d['fl']
            if k in self.loss:
                L = self.loss[k]
                if d['from'] == region:
                    c[L] = c.get(L, 0.0) - d['share']
                elif d['to'] == region:
                    c[L] = c.get(L, 0.0) - (1 - d['share'])
        return c

    def _market(self):
        st = self.st
        if 'set_demand_constraints' in st.g:
            for r in rows(st.g['set_demand_constraints']['demand']):
                self.lp.con('demand', r['region'], self.balance(r['region']), '=', float(r['demand']))
        if 'set_fcas_requirements_constraints' in st.g:
            sets = {}
            for r in rows(st.g['set_fcas_requirements_constraints']['fcas_requirements']):
                s = sets.setdefault(r['set'], {'volume': float(r['volume']), 'type': r.get('type', '='), 'rs': set()})
                s['rs'].add((r['region'], r['service']))
            self.fcas_sets = sets
            for name, s in sets.items():
                c = {}
                for (u, side, svc) in self.bid:
                    if (st.units[(u, side)][0], svc) in s['rs']:
                        self.E(u, side, svc, 1.0, c)
                self.lp.con('fcas', name, c, s['type'], s['volume'])
        else:
            self.fcas_sets = {}

    def _unit(self):
        st, lp = self.st, self.lp
        h = st.T / 60.0
        for m, g in (('set_unit_bid_capacity_constraints', 'unit_bid_capacity'),
                     ('set_unconstrained_intermittent_generation_forecast_constraint', 'uigf_capacity')):
            if m in st.g:
                for r in rows(st.g[m]['unit_limits']):
                    side = r.get('dispatch_type', 'generator')
                    lp.con(g, (r['unit'], side), self.energy(r['unit'], side), '<=', num(r['capacity']))
        if 'set_unit_ramp_rate_constraints' in st.g:
            a = st.g['set_unit_ramp_rate_constraints']
            scada = {r['unit']: r for r in rows(a['scada_ramp_rates'])} if a.get('scada_ramp_rates') else {}
            run = a.get('run_type', 'no_fast_start_units')
            prof = {r['unit']: r for r in rows(a['fast_start_profiles'])} if a.get('fast_start_profiles') else {}
            bd = {}

            def slower(rate, unit, col):
                s = scada.get(unit, {}).get(col)
                return rate if s is None else min(rate, float(s))

            for r in rows(a['ramp_details']):
                side = r.get('dispatch_type', 'generator')
                u = r['unit']
                if u in st.bdu:
                    bd.setdefault(u, {})[side] = r
                    continue
                if run == 'fast_start_first_run' and int(prof.get(u, {}).get('current_mode', 9)) in (0, 1, 2):
                    continue
                if run == 'fast_start_second_run' and int(prof.get(u, {}).get('end_mode', 9)) in (0, 1, 2):
                    continue
                up = slower(float(r['ramp_up_rate']), u, 'scada_ramp_up_rate')
                dn = slower(float(r['ramp_down_rate']), u, 'scada_ramp_down_rate')
                hi = float(r['initial_output']) + up * h
                lo = float(r['initial_output']) - dn * h
                if run == 'fast_start_second_run' and prof.get(u, {}).get('time_since_end_of_mode_two') is not None:
                    hi = float(prof[u]['min_loading']) + up / 60.0 * float(prof[u]['time_since_end_of_mode_two'])
                lp.con('ramp_up', (u, side), self.energy(u, side), '<=', hi)
                lp.con('ramp_down', (u, side), self.energy(u, side), '>=', lo)
            for u, d in bd.items():
                if len(d) < 2:
                    continue
                g, l = d['generator'], d['load']
                x0 = float(l['initial_output'])
                up = composite_rise(x0, float(l['ramp_down_rate']), float(g['ramp_up_rate']), h)
                x0d = float(g['initial_output'])
                dn = composite_fall(x0d, float(g['ramp_down_rate']), float(l['ramp_up_rate']), h)
                s = scada.get(u, {})
                if s.get('scada_ramp_up_rate') is not None:
                    up = min(up, float(s['scada_ramp_up_rate']) * h)
                if s.get('scada_ramp_down_rate') is not None:
                    dn = min(dn, float(s['scada_ramp_down_rate']) * h)
                lp.con('bidirectional_ramp_up', u, self.net(u), '<=', x0 + up)
                lp.con('bidirectional_ramp_down', u, self.net(u), '>=', x0 - dn)
        if 'set_fast_start_constraints' in st.g:
            for r in rows(st.g['set_fast_start_constraints']['fast_start_profiles']):
                for (u, side) in list(st.units):
                    if u != r['unit']:
                        continue
                    mode = int(r['end_mode'])
                    e = self.energy(u, side)
                    ml = float(r['min_loading'])
                    t = float(r['time_in_end_mode'])
                    if mode in (0, 1):
                        lp.con('fast_start', (u, mode, '<='), e, '<=', 0.0)
                    elif mode == 2:
                        x = t / float(r['mode_two_length']) * ml
                        lp.con('fast_start', (u, mode, '<='), e, '<=', x)
                        lp.con('fast_start', (u, mode, '>='), e, '>=', x)
                    elif mode == 3:
                        lp.con('fast_start', (u, mode, '>='), e, '>=', ml)
                    elif mode == 4 and float(r['mode_four_length']) > 0:      # a mode without length is over at once
                        lp.con('fast_start', (u, mode, '>='), e, '>=', ml * (1 - t / float(r['mode_four_length'])))

    def _fcas_unit(self):
        st, lp = self.st, self.lp
        h = st.T / 60.0
        if 'set_fcas_max_availability' in st.g:
            for r in rows(st.g['set_fcas_max_availability']['fcas_max_availability']):
                side = r.get('dispatch_type', 'generator')
                lp.con('fcas_max_availability', (r['unit'], side, r['service']), self.E(r['unit'], side, r['service']), '<=', float(r['max_availability']))
        if 'set_joint_ramping_constraints_reg' in st.g:
            a = st.g['set_joint_ramping_constraints_reg']
            run = a.get('run_type', 'no_fast_start_units')
            prof = {r['unit']: r for r in rows(a['fast_start_profiles'])} if a.get('fast_start_profiles') else {}
            sides = st.g['_reg_sides']
            for r in rows(a['scada_ramp_rates']):
                u = r['unit']
                if run == 'fast_start_first_run' and int(prof.get(u, {}).get('current_mode', 9)) in (0, 1, 2):
                    continue
                if run == 'fast_start_second_run' and int(prof.get(u, {}).get('end_mode', 9)) in (0, 1, 2):
                    continue
                # a rate that is not telemetered limits nothing
                rate = lambda c: float(r[c]) if r.get(c) is not None else np.inf
                x0, up, dn = float(r['initial_output']), rate('scada_ramp_up_rate') * h, rate('scada_ramp_down_rate') * h
                if run == 'fast_start_second_run' and prof.get(u, {}).get('time_since_end_of_mode_two') is not None and up < np.inf:
                    up = float(prof[u]['min_loading']) + float(r['scada_ramp_up_rate']) / 60.0 * float(prof[u]['time_since_end_of_mode_two']) - x0
                if u in st.bdu:
                    if up < np.inf and any((u, s, 'raise_reg') in sides for s in ('generator', 'load')):
                        c = self.net(u)
                        for s in ('generator', 'load'):
                            self.E(u, s, 'raise_reg', 1.0, c)
                        lp.con('joint_ramping_raise_reg_bdu', u, c, '<=', x0 + up)
                    if dn < np.inf and any((u, s, 'lower_reg') in sides for s in ('generator', 'load')):
                        c = self.net(u)
                        for s in ('generator', 'load'):
                            self.E(u, s, 'lower_reg', -1.0, c)
                        lp.con('joint_ramping_lower_reg_bdu', u, c, '>=', x0 - dn)
                    continue
                if (u, 'generator', 'raise_reg') in sides and up < np.inf:
                    lp.con('joint_ramping_raise_reg', u, self.E(u, 'generator', 'raise_reg', 1.0, self.energy(u, 'generator')), '<=', x0 + up)
                if (u, 'generator', 'lower_reg') in sides and dn < np.inf:
                    lp.con('joint_ramping_lower_reg', u, self.E(u, 'generator', 'lower_reg', -1.0, self.energy(u, 'generator')), '>=', x0 - dn)
                if (u, 'load', 'raise_reg') in sides and up < np.inf:
                    lp.con('joint_ramping_raise_reg', u, self.E(u, 'load', 'raise_reg', -1.0, self.energy(u, 'load')), '>=', x0 - up)
                if (u, 'load', 'lower_reg') in sides and dn < np.inf:
                    lp.con('joint_ramping_lower_reg', u, self.E(u, 'load', 'lower_reg', 1.0, self.energy(u, 'load')), '<=', x0 + dn)
        if 'set_joint_capacity_constraints' in st.g:
            for r in rows(st.g['set_joint_capacity_constraints']['contingency_trapeziums']):
                u, side, svc = r['unit'], r.get('dispatch_type', 'generator'), r['service']
                mx = float(r['max_availability'])
                us = (float(r['enablement_max']) - float(r['high_break_point'])) / mx
                ls = (float(r['low_break_point']) - float(r['enablement_min'])) / mx
                b = u in st.bdu
                up = self.net(u) if b else self.energy(u, side)
                dn = dict(up)
                self.E(u, side, svc, us, up)
                self.E(u, side, svc, -ls, dn)
                if b:
                    for s in ('generator', 'load'):
                        self.E(u, s, 'raise_reg', 1.0, up)
                        self.E(u, s, 'lower_reg', -1.0, dn)
                else:
                    self.E(u, side, 'raise_reg' if side == 'generator' else 'lower_reg', 1.0, up)
                    self.E(u, side, 'lower_reg' if side == 'generator' else 'raise_reg', -1.0, dn)
                lp.con('joint_capacity', (u, side, svc, 'max'), up, '<=', float(r['enablement_max']))
                lp.con('joint_capacity', (u, side, svc, 'min'), dn, '>=', float(r['enablement_min']))
        if 'set_energy_and_regulation_capacity_constraints' in st.g:
            for r in rows(st.g['set_energy_and_regulation_capacity_constraints']['regulation_trapeziums']):
                u, side, svc = r['unit'], r.get('dispatch_type', 'generator'), r['service']
                mx = float(r['max_availability'])
                us = (float(r['enablement_max']) - float(r['high_break_point'])) / mx
                ls = (float(r['low_break_point']) - float(r['enablement_min'])) / mx
                sgn = -1.0 if (u in st.bdu and side == 'load') else 1.0
                up = self.E(u, side, svc, us, self.energy(u, side, sgn))
                dn = self.E(u, side, svc, -ls, self.energy(u, side, sgn))
                lp.con('energy_and_regulation_capacity', (u, side, svc, 'max'), up, '<=', float(r['enablement_max']))
                lp.con('energy_and_regulation_capacity', (u, side, svc, 'min'), dn, '>=', float(r['enablement_min']))

    def _generic(self):
        st, lp = self.st, self.lp
        terms = {}

        def add(s, c):
            d = terms.setdefault(s, {})
            for v, k in c.items():
                d[v] = d.get(v, 0.0) + k

        if 'link_units_to_generic_constraints' in st.g:
            for r in rows(st.g['link_units_to_generic_constraints']['unit_coefficients']):
                for side in ('generator', 'load'):
                    k = float(r['coefficient'])
                    if side == 'load' and r['unit'] in st.bdu and r['service'] == 'energy':
                        k = -k
                    add(r['set'], self.E(r['unit'], side, r['service'], k))
        if 'link_regions_to_generic_constraints' in st.g:
            for r in rows(st.g['link_regions_to_generic_constraints']['region_coefficients']):
                for (u, side, svc) in self.bid:
                    if svc == r['service'] and st.units[(u, side)][0] == r['region']:
                        k = float(r['coefficient'])
                        if side == 'load' and u in st.bdu and svc == 'energy':
                            k = -k
                        add(r['set'], self.E(u, side, svc, k))
        if 'link_interconnectors_to_generic_constraints' in st.g:
            for r in rows(st.g['link_interconnectors_to_generic_constraints']['interconnector_coefficients']):
                for (i, l), v in self.flow.items():
                    if i == r['interconnector']:
                        add(r['set'], {v: float(r['coefficient']) * self.inter[(i, l)]['gcf']})
        for c in lp.cons:
            if c['group'] == 'fcas' and c['key'] in terms:
                for v, k in terms[c['key']].items():
                    c['coef'][v] = c['coef'].get(v, 0.0) + k
        if 'set_generic_constraints' in st.g:
            for r in rows(st.g['set_generic_constraints']['generic_constraint_parameters']):
                lp.con('generic', r['set'], dict(terms.get(r['set'], {})), r['type'], float(r['rhs']))

    def _tie(self):
        st, lp = self.st, self.lp
        if 'set_tie_break_constraints' not in st.g:
            return
        cost = float(st.g['set_tie_break_constraints']['cost'])
        bands = []
        for (u, side, svc), bs in self.bid.items():
            if svc == 'energy':
                for v, vol, c in bs:
                    bands.append((u, side, st.units[(u, side)][0], c, v, vol))
        for i in range(len(bands)):
            for j in range(i + 1, len(bands)):
                a, b = bands[i], bands[j]
                if a[0] != b[0] and a[1:4] == b[1:4]:
                    self.tie_pairs.append((a, b))
                    lp.con('tie_break', (a[0], b[0], a[4], b[4]), {a[4]: 1.0 / a[5], b[4]: -1.0 / b[5]}, '=', 0.0)
        st.elastic['tie_break'] = cost

    def _elastic(self):
        keep = []
        for c in self.lp.cons:
            cost = self.st.elastic.get(c['group'])
            if isinstance(cost, dict):
                cost = cost.get(c['key'])
            if cost is None:
                if not c['coef'] and not c['group'].startswith('_') and c['group'] not in ('demand', 'fcas'):
                    c['empty'] = True
                    continue        # no participating terms: nothing to constrain
                keep.append(c)
                continue
            c['cost'] = cost
            if c['sense'] in ('<=', '='):
                c['def'].append((self.lp.var(('def', c['group'], c['key'], '-'), 0.0, np.inf, cost), -1.0))
            if c['sense'] in ('>=', '='):
                c['def'].append((self.lp.var(('def', c['group'], c['key'], '+'), 0.0, np.inf, cost), 1.0))
            keep.append(c)
        self.lp.cons = keep

    # ---- queries
    def solve(self, **kw):
        if any(self.lp.integer):
            # cheaper: the relaxation is exact when it happens to satisfy adjacency
            pass
        return self.lp.solve(**kw)

    def con_index(self, group, key=None):
        return [i for i, c in enumerate(self.lp.cons) if c['group'] == group and (key is None or c['key'] == key)]


def composite_rise(x0, below_rate, above_rate, h):
    """largest increase of net output in h hours: `below_rate` while negative, `above_rate` above zero"""
    if x0 >= 0:
        return above_rate * h
    if below_rate <= 0:
        return 0.0
    t0 = -x0 / below_rate
    if t0 >= h:
        return below_rate * h
    return -x0 + (h - t0) * above_rate


def composite_fall(x0, above_rate, below_rate, h):
    """largest decrease of net output in h hours"""
    if x0 <= 0:
        return below_rate * h
    if above_rate <= 0:
        return 0.0
    t0 = x0 / above_rate
    if t0 >= h:
        return above_rate * h
    return x0 + (h - t0) * below_rate
