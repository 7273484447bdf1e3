"""Oracles over one recorded market execution (program + results)."""
import math
import random
import numpy as np
from refmodel import Ref, State, build_state, rows, num, LP

TOL_MW = 2e-4


def tab(t):
    return [dict(zip(t['cols'], r)) for r in t['rows']]


class Obs:
    """Everything the market reported after a dispatch."""

    def __init__(self, rep):
        self.rep = rep
        self.bad = []
        self.disp = {}
        for r in tab(rep['get_unit_dispatch']):
            k = (r['unit'], r['dispatch_type'], r['service'])
            if k in self.disp:
                self.bad.append('dispatch of %s is reported more than once' % (k,))
            if not isinstance(r['dispatch'], (int, float)):
                self.bad.append('dispatch of %s is reported as %s' % (k, r['dispatch']))
            self.disp[(r['unit'], r['dispatch_type'], r['service'])] = r['dispatch']
        self.flow, self.loss = {}, {}
        fl = rep.get('get_interconnector_flows')
        if isinstance(fl, dict) and 'cols' in fl:
            for r in tab(fl):
                k = (r['interconnector'], r['link'])
                if k in self.flow:
                    self.bad.append('flow of %s is reported more than once' % (k,))
                if not isinstance(r['flow'], (int, float)):
                    self.bad.append('flow of %s is reported as %s' % (k, r['flow']))
                self.flow[(r['interconnector'], r['link'])] = r['flow']
                if r.get('losses') is not None:
                    self.loss[(r['interconnector'], r['link'])] = r['losses']
        self.eprice = {}
        ep = rep.get('get_energy_prices')
        if isinstance(ep, dict) and 'cols' in ep:
            self.eprice = {r['region']: r['price'] for r in tab(ep)}
            if len(self.eprice) != len(ep['rows']):
                self.bad.append('energy price of a region is reported more than once')
        self.fprice = {}
        fp = rep.get('get_fcas_prices')
        if isinstance(fp, dict) and 'cols' in fp:
            self.fprice = {(r['region'], r['service']): r['price'] for r in tab(fp)}
        self.viol = rep['violation']
        self.obj = rep['objective_value']


class Finding(dict):
    def __init__(self, monitor, msg, **kw):
        super().__init__(monitor=monitor, msg=msg, **kw)


def dispatch_index(job):
    return [i for i, c in enumerate(job['calls']) if c.get('m') == 'dispatch']


class Judge:
    """Judges the dispatch at call index `at` (default: last)."""

    def __init__(self, job, res, at=None, stats=None):
        self.job, self.res = job, res
        self.stats = stats if stats is not None else {}
        ds = dispatch_index(job)
        self.at = ds[-1] if at is None else at
        self.st = build_state(job, self.at + 1)
        self.ref = Ref(self.st)
        self.findings = []
        self.obs = None
        self.sol = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, monitor, msg, **kw):
        self.findings.append(Finding(monitor, msg, **kw))

    # -------------------------------------------------------------- status
    def status(self):
        """compare success / failure with the reference; returns True when both are solved"""
        calls = self.res['calls']
        if 'err' in self.res['init']:
            self.fail('status', 'market could not be created: %s' % self.res['init'])
            return False
        for i, c in enumerate(calls):
            if 'err' in c and i != self.at and not self.job['calls'][i].get('may_fail'):
                if i < self.at:
                    self.fail('status', 'call %s refused: %s %s' % (self.job['calls'][i].get('m'), c['err'], c['msg']))
                    return False
        if len(calls) <= self.at:
            self.fail('status', 'dispatch was not reached')
            return False
        self.sol = self.ref.solve()
        if self.sol['status'] not in ('optimal', 'infeasible'):
            self.count('reference_inconclusive')
            return False
        c = calls[self.at]
        if self.sol['status'] == 'infeasible':
            self.count('infeasible_cases')
            if 'err' not in c:
                # decide with a slightly relaxed reference before accusing
                if self._near_feasible():
                    self.count('borderline_infeasible')
                    return False
                self.fail('status', 'a dispatch was returned although no dispatch satisfies the constraints')
            return False
        if 'err' in c:
            if c['err'] == 'ValueError' and self._near_infeasible():
                self.count('borderline_feasible')
                return False
            self.fail('status', 'dispatch failed (%s: %s at %s) although an allowed dispatch exists' % (c['err'], c['msg'], c.get('at')))
            return False
        rep = calls[self.at + 1] if len(calls) > self.at + 1 else None
        if not rep or 'get_unit_dispatch' not in rep:
            self.fail('status', 'no report')
            return False
        for k in ('get_unit_dispatch',):
            if 'err' in rep[k]:
                self.fail('status', '%s failed: %s' % (k, rep[k]))
                return False
        try:
            self.obs = Obs(rep)
            bad = self.obs.bad
        except (KeyError, TypeError, ValueError) as e:
            bad = ['the reports cannot be read: %s %s' % (type(e).__name__, e)]
        if bad:
            for b in bad:
                self.fail('status', b)
            self.obs = None
            return False
        self.count('solved')
        return True

    def _near_feasible(self, eps=1e-3):
        lp = self.ref.lp
        old = [(c['sense'], c['rhs'], list(c['def'])) for c in lp.cons]
        n0 = len(lp.names)
        for c in lp.cons:
            if not c['def'] and not c['group'].startswith('_'):
                if c['sense'] in ('<=', '='):
                    c['def'].append((lp.var('x', 0, eps), -1.0))
                if c['sense'] in ('>=', '='):
                    c['def'].append((lp.var('x', 0, eps), 1.0))
        s = self.ref.solve()
        for c, o in zip(lp.cons, old):
            c['def'] = o[2]
        for nm in ('names', 'cost', 'lb', 'ub', 'integer'):
            del getattr(lp, nm)[n0:]
        return s['status'] == 'optimal'

    def _near_infeasible(self, eps=1e-4):
        """no allowed dispatch is left once every limit is tightened by eps: solver tolerances may decide either way"""
        lp = self.ref.lp
        old = [c['rhs'] for c in lp.cons]
        for c in lp.cons:
            if not c['def'] and not c['group'].startswith('_') and c['sense'] != '=':
                c['rhs'] += -eps if c['sense'] == '<=' else eps
        lb, ub = list(lp.lb), list(lp.ub)
        for i, n in enumerate(lp.names):
            if n[0] in ('bid', 'flow') and ub[i] - lb[i] > 3 * eps:
                lb[i] += eps
                ub[i] -= eps
        s = lp.solve(lb, ub)
        for c, o in zip(lp.cons, old):
            c['rhs'] = o
        return s['status'] != 'optimal'

    # -------------------------------------------------------------- helpers
    def xvec(self):
        o, ref = self.obs, self.ref
        x = np.zeros(len(ref.lp.names))
        for k, bands in ref.bid.items():
            x[bands[0][0]] = o.disp.get(k, 0.0)
        for k, v in ref.flow.items():
            x[v] = o.flow.get(k, float('nan'))
        for k, v in ref.loss.items():
            x[v] = o.loss.get(k, float('nan'))
        return x

    def lhs(self, c, x):
        done, s = set(), 0.0
        lp = self.ref.lp
        for v, k in c['coef'].items():
            n = lp.names[v]
            if n[0] == 'bid':
                key = n[1:4]
                if key in done:
                    continue
                done.add(key)
                s += k * self.obs.disp.get(key, 0.0)
            else:
                s += k * x[v]
        return s

    # -------------------------------------------------------------- monitors
    def offers(self):
        for k, bands in self.ref.bid.items():
            self.count('offers')
            tot = sum(b[1] for b in bands)
            d = self.obs.disp.get(k)
            if d is None:
                self.fail('offers', 'no dispatch reported for %s' % (k,))
                continue
            if d < -TOL_MW:
                self.fail('offers', 'negative dispatch %s of %s' % (d, k))
            if d > tot + TOL_MW:
                self.fail('offers', 'dispatch %s of %s exceeds the %s offered' % (d, k, tot))
            if 0 < d < tot:
                self.count('partial_offers')
        for k in self.obs.disp:
            if k not in self.ref.bid:
                self.fail('offers', 'dispatch reported for %s which offered nothing' % (k,))

    def groups(self, only=None):
        """every constraint group: excess over the stated limit against the reported violation"""
        x = self.xvec()
        tot = {}
        for c in self.ref.lp.cons:
            g = c['group']
            if g.startswith('_') or g == 'tie_break' or (only and g not in only):
                continue
            self.count('con:' + g)
            l = self.lhs(c, x)
            ex = 0.0
            if c['sense'] in ('<=', '='):
                ex = max(ex, l - c['rhs'])
            if c['sense'] in ('>=', '='):
                ex = max(ex, c['rhs'] - l)
            if not ex == ex:
                self.fail('group:' + g, 'constraint %s: nothing reported for one of its terms' % (c['key'],))
                continue
            if abs(l - c['rhs']) < 1e-3:
                self.count('binding:' + g)
            if not c['def']:
                if ex > TOL_MW * max(1.0, max(abs(k) for k in c['coef'].values()) if c['coef'] else 1.0):
                    self.fail('group:' + g, '%s constraint %s broken by %.6f MW (lhs %.6f %s %.6f)' % (g, c['key'], ex, l, c['sense'], c['rhs']))
            else:
                if ex > 1e-3:
                    self.count('violated:' + g)
                tot.setdefault(g, [0.0, 0, 0.0])
                tot[g][0] += ex
                tot[g][1] += 1
                tot[g][2] = max(tot[g][2], c.get('cost', 0.0))
        for g, (ex, n, cost) in tot.items():
            rep = self.obs.viol.get(g)
            if not isinstance(rep, (int, float)):
                self.fail('degree:' + g, 'violation degree of %s not reported: %s' % (g, rep))
                continue
            if abs(rep - ex) > TOL_MW * n + 1e-6 * abs(ex) and cost > 0:
                self.fail('degree:' + g, 'violation degree of %s reported as %.6f, dispatch breaks it by %.6f' % (g, rep, ex))
        if only is None:
            for g, v in self.obs.viol.items():
                if g not in tot and g != 'tie_break' and isinstance(v, (int, float)) and abs(v) > TOL_MW:
                    self.fail('degree:' + g, 'violation degree %.6f reported for %s which is not elastic' % (v, g))

    def interconnectors(self):
        ref, o = self.ref, self.obs
        for k, d in ref.inter.items():
            self.count('flows')
            f = o.flow.get(k)
            if f is None:
                self.fail('inter', 'no flow reported for %s' % (k,))
                continue
            if f > d['max'] + TOL_MW or f < d['min'] - TOL_MW:
                self.fail('inter', 'flow %.6f of %s outside [%s, %s]' % (f, k, d['min'], d['max']))
            if 'pts' in d:
                L = o.loss.get(k)
                if L is None:
                    self.fail('inter', 'no losses reported for %s' % (k,))
                    continue
                e = float(np.interp(f, d['pts'], d['ys']))
                if abs(L - e) > 1e-3 + 1e-5 * abs(e):
                    self.fail('inter', 'losses %.6f of %s at flow %.6f, loss curve gives %.6f' % (L, k, f, e))
                if min(abs(f - p) for p in d['pts']) > 1e-3:
                    self.count('flow_inside_segment')
                else:
                    self.count('flow_at_breakpoint')
        by = {}
        for (i, l), f in o.flow.items():
            if (i, l) not in ref.inter:
                self.fail('inter', 'flow reported for unknown interconnector %s' % ((i, l),))
            if i != l:
                by.setdefault(i, []).append((l, f))
        for i, fs in by.items():
            self.count('link_pairs')
            if sum(1 for _, f in fs if abs(f) > 1e-3) > 1:
                self.fail('inter', 'interconnector %s: more than one link carries flow: %s' % (i, fs))

    def cost_tol(self):
        mc = max([abs(c) for c in self.ref.lp.cost] + [1.0])
        return 1e-3 + 2e-6 * abs(self.sol['obj']) + 2e-5 * mc

    def optimal(self):
        tol = self.cost_tol()
        self.count('objective_compared')
        if self.obs.obj is not None and self.obs.obj < self.sol['obj'] - tol and any(self.ref.lp.integer):
            s = self.ref.solve(deep=True)
            if s['status'] == 'optimal' and s['obj'] < self.sol['obj'] - tol:
                self.sol = s
                self.count('reference_resolved')
        if self.obs.obj is None or abs(self.obs.obj - self.sol['obj']) > tol:
            self.fail('objective', 'objective value reported %s, least cost is %.6f' % (self.obs.obj, self.sol['obj']))
        # cost of the reported dispatch itself
        # (the reported figures carry the solver's rounding, so a first refusal is
        # confirmed with the dispatch pinned less tightly)
        s = self._pinned(2e-5)
        for eps in (2e-5, 3e-4, 1e-3):
            if s['status'] == 'optimal' and s['obj'] <= self.sol['obj'] + tol:
                break
            r = self._pinned(eps, deep=True)
            if r['status'] != 'infeasible':
                s = r
            if s['status'] == 'timeout':
                break
        if s['status'] == 'timeout':
            self.count('reference_inconclusive')
        elif s['status'] != 'optimal':
            if self._near_infeasible():
                self.count('borderline_feasible')
                return
            self.fail('optimal', 'the reported dispatch is not an allowed dispatch (%s)' % s['status'])
        elif s['obj'] > self.sol['obj'] + tol:
            self.fail('optimal', 'the reported dispatch costs %.6f, the least cost is %.6f' % (s['obj'], self.sol['obj']))

    def _pinned(self, eps, deep=False):
        """least cost of the reference model with the reported dispatch and flows fixed"""
        ref = self.ref
        lp = ref.lp
        ncon = len(lp.cons)
        lb, ub = list(lp.lb), list(lp.ub)
        for k, bands in ref.bid.items():
            d = self.obs.disp.get(k, 0.0)
            co = {b[0]: 1.0 for b in bands}
            lp.con('_fix', k, co, '<=', d + eps)
            lp.con('_fix', k, co, '>=', d - eps)
        for k, v in ref.flow.items():
            f = self.obs.flow.get(k)
            if f is not None:
                lb[v], ub[v] = max(lb[v], f - eps), min(ub[v], f + eps)
                if lb[v] > ub[v]:
                    lb[v] = ub[v] = min(max(f, lp.lb[v]), lp.ub[v])
        s = lp.solve(lb, ub, deep=deep)
        if ref.seg:
            # the flow decides the loss segment: settle that directly as well
            for k, segs in ref.seg.items():
                f, pts = self.obs.flow.get(k), ref.inter[k]['pts']
                if f is None:
                    continue
                at = 0
                while at < len(segs) - 1 and f > pts[at + 1]:
                    at += 1
                for i, (z, t, _) in enumerate(segs):
                    lb[z] = ub[z] = 1.0 if i == at else 0.0
            r = lp.solve(lb, ub, deep=deep)
            if r['status'] == 'optimal' and (s['status'] != 'optimal' or r['obj'] < s['obj']):
                s = r
        del lp.cons[ncon:]
        return s

    # -------------------------------------------------------------- prices
    def price_lp(self):
        """LP with each interconnector held on the loss segment and link it uses.

        Returns (ref LP bounds lb, ub, base value) or None when pricing is ambiguous
        (relaxing the segment choice would lower cost, so no linear pricing model reproduces the dispatch)."""
        ref, lp = self.ref, self.ref.lp
        lb, ub = list(lp.lb), list(lp.ub)
        if not any(lp.integer):
            return lb, ub, self.sol['obj']
        # 1. relaxation without any adjacency or link exclusivity
        r = self._lambda_relax(None)
        tol = self.cost_tol()
        gap_free = r['status'] == 'optimal' and r['obj'] >= self.sol['obj'] - tol
        if not gap_free and ref.seg:
            r = self._lambda_relax(3)
            gap_free = r['status'] == 'optimal' and r['obj'] >= self.sol['obj'] - tol
        if not gap_free:
            return None
        for k, segs in ref.seg.items():
            d = ref.inter[k]
            f = self.obs.flow[k]
            best = min(segs, key=lambda z: max(d['pts'][z[2]] - f, f - d['pts'][z[2] + 1], 0.0))
            at = [i for i, p in enumerate(d['pts']) if abs(p - f) < 1e-6]
            for z, t, s in segs:
                if at:      # at a break point the segments either side of it
                    lb[z], ub[z] = 0.0, (1.0 if s in (at[0] - 1, at[0]) else 0.0)
                else:
                    lb[z] = ub[z] = 1.0 if s == best[2] else 0.0
        for i, n in enumerate(lp.names):
            if n[0] == 'linkon':
                on = abs(self.obs.flow[n[1:]]) > 1e-6
                others = any(abs(f) > 1e-6 for (a, l), f in self.obs.flow.items() if a == n[1] and l != n[2] and a != l)
                if others:
                    lb[i] = ub[i] = 0.0
                elif on:
                    lb[i] = ub[i] = 1.0
        # neither link used: the model may leave either or neither available; restrict to neither (sound)
        for (i, l), v in ref.flow.items():
            if i != l and abs(self.obs.flow[(i, l)]) <= 1e-6:
                if lp.lb[v] <= 0 <= lp.ub[v]:
                    lb[v] = ub[v] = 0.0
        r = lp.solve(lb, ub)
        if r['status'] != 'optimal' or abs(r['obj'] - self.sol['obj']) > tol:
            return None
        return lb, ub, r['obj']

    def _lambda_relax(self, nearest):
        """convexified losses: free weights over all (or the nearest) break points"""
        ref = Ref(self.st)
        lp = ref.lp
        keep = []
        for c in lp.cons:
            if c['group'] == '_sos2' or c['group'] == '_sos':
                continue
            keep.append(c)
        lp.cons = keep
        for k, L in ref.loss.items():
            d = ref.inter[k]
            idx = range(len(d['pts']))
            if nearest:
                f = self.obs.flow[k]
                near = sorted(idx, key=lambda i: abs(d['pts'][i] - f))
                at = [i for i in near if abs(d['pts'][i] - f) < 1e-6][:1]
                side = at + [i for i in near if d['pts'][i] < f and i not in at][:1] + [i for i in near if d['pts'][i] > f and i not in at][:1]
                idx = sorted(set(side + [i for i in near if i not in side][:nearest - len(set(side))]))
            fc, lc, one = {ref.flow[k]: -1.0}, {L: -1.0}, {}
            for i in idx:
                w = lp.var('w', 0, 1)
                fc[w], lc[w], one[w] = d['pts'][i], d['ys'][i], 1.0
            lp.con('_w', k, fc, '=', 0.0)
            lp.con('_w', k, lc, '=', 0.0)
            lp.con('_w', k, one, '=', 1.0)
        # unused segment variables are harmless but must stay feasible; a link whose sibling is in use stays unused
        lb, ub = list(lp.lb), list(lp.ub)
        for (i, l), v in ref.flow.items():
            if i != l and abs(self.obs.flow[(i, l)]) <= 1e-6 and any(abs(f) > 1e-6 for (a, m), f in self.obs.flow.items() if a == i and m != l):
                lb[v] = ub[v] = 0.0
        return lp.solve(lb, ub, relax_int=True)

    def prices(self, seed=0, ptol=None, which=('energy', 'fcas')):
        p = self.price_lp()
        if p is None:
            self.count('price_ambiguous')
            return
        lb, ub, base = p
        n0 = len(self.findings)
        self._price_check(lb, ub, base, seed, which)
        if len(self.findings) > n0 and self.ref.seg:
            # before accusing: is the pricing problem ambiguous by less than the cost tolerance?
            r = self._lambda_relax(3)
            close = any(1e-6 <= abs(f - q) < 0.01 for k, f in self.obs.flow.items() for q in self.ref.inter[k].get('pts', []))
            if close or r['status'] != 'optimal' or r['obj'] < base - 1e-5 - 1e-9 * abs(base):
                del self.findings[n0:]
                self.count('price_ambiguous')

    def _price_check(self, lb, ub, base, seed=0, which=('energy', 'fcas'), obs=None):
        ref, lp = self.ref, self.ref.lp
        o = obs or self.obs
        rng = random.Random(seed)
        dirs = []
        dem = {c['key']: i for i, c in enumerate(lp.cons) if c['group'] == 'demand'}
        if 'energy' in which:
            for reg, i in dem.items():
                if reg not in o.eprice or o.eprice[reg] is None:
                    if self._near_infeasible():
                        self.count('borderline_feasible')
                        return
                    self.fail('price', 'no energy price for region %s' % reg)
                    return
                dirs.append(('energy %s' % reg, {i: 1.0}, o.eprice[reg]))
            for reg in o.eprice:
                if reg not in dem:
                    self.fail('price', 'energy price for %s which has no demand constraint' % reg)
        fc = {c['key']: i for i, c in enumerate(lp.cons) if c['group'] == 'fcas'}
        if 'fcas' in which and fc:
            pairs = {}
            for s, d in ref.fcas_sets.items():
                for q in d['rs']:
                    pairs.setdefault(q, []).append(s)
            for q, sets in pairs.items():
                if q not in o.fprice or o.fprice[q] is None:
                    if self._near_infeasible():
                        self.count('borderline_feasible')
                        return
                    self.fail('price', 'no FCAS price for %s' % (q,))
                    return
                if any(s not in fc for s in sets):
                    continue
                dirs.append(('fcas %s %s' % q, {fc[s]: 1.0 for s in sets}, o.fprice[q]))
            for q in o.fprice:
                if q not in pairs:
                    self.fail('price', 'FCAS price for %s which no set covers' % (q,))
        if 'energy' in which and len(dem) > 1:
            for _ in range(2):
                w = {i: rng.uniform(-1, 1) for i in dem.values()}
                dirs.append(('combination', w, sum(w[dem[g]] * o.eprice[g] for g in dem)))
        for name, w, price in dirs:
            if price is None:
                continue
            self.count('price_directions')
            for sgn in (1.0, -1.0):
                bad = None
                for eps in (0.02, 0.2):
                    # judged at two step sizes: solver tolerances blur the small one, nearby kinks the large one
                    s = lp.solve(lb, ub, rhs_shift={i: sgn * eps * k for i, k in w.items()})
                    if s['status'] != 'optimal':
                        self.count('price_one_sided' if s['status'] == 'infeasible' else 'reference_inconclusive')
                        bad = None
                        break
                    slope = (s['obj'] - base) / eps       # >= sgn * price for any marginal price
                    blur = abs((o.obj if o.obj is not None else base) - base)
                    blur += sum(v * max(abs(c) for c in lp.cost) for v in o.viol.values() if isinstance(v, float) and 0 < v < 1e-5)
                    tol = 5e-3 + 1e-4 * abs(price) + (blur if blur < self.cost_tol() else 0.0) / eps + (1e-8 * abs(base) + 1e-9 * max(abs(c) for c in lp.cost)) / eps
                    if not sgn * price > slope + tol:
                        bad = None
                        break
                    bad = slope
                if bad is not None:
                    self.fail('price', 'price of %s is %.6f but %s MW changes least cost at a rate of %.6f' % (name, price, '+1' if sgn > 0 else '-1', sgn * bad))

    # -------------------------------------------------------------- tie break
    def tie(self):
        """total unfairness equals the least attainable: covered by objective; here: the direct pro rata check"""
        pass

    # -------------------------------------------------------------- reports
    def summary(self):
        rep = self.obs.rep.get('get_region_dispatch_summary')
        if not isinstance(rep, dict) or 'cols' not in rep:
            self.fail('summary', 'regional summary failed: %s' % rep)
            return
        got = {}
        for r in tab(rep):
            if r['region'] in got:
                self.fail('summary', 'region %s listed twice' % r['region'])
            got[r['region']] = r
        want = {reg for (u, s), (reg, _) in self.st.units.items() if (u, s, 'energy') in self.ref.bid}
        for d in self.ref.inter.values():
            want |= {d['to'], d['from']}
        for reg in sorted(want - set(got)):
            self.fail('summary', 'region %s missing from the regional summary' % reg)
        dem = {c['key']: c for c in self.ref.lp.cons if c['group'] == 'demand'}
        x = self.xvec()
        for reg, r in got.items():
            if reg not in want:
                self.fail('summary', 'unexpected region %s' % reg)
                continue
            self.count('summary_rows')
            e = sum(d * (1 if k[1] == 'generator' else -1) for k, d in self.obs.disp.items() if k[2] == 'energy' and self.st.units[k[:2]][0] == reg)
            inflow = loss = tl = 0.0
            for k, d in self.ref.inter.items():
                f, L = self.obs.flow[k], self.obs.loss.get(k, 0.0)
                if d['to'] == reg:
                    inflow += f
                    tl += f - d['tl'] * f
                    loss += (1 - (d['share'] or 0)) * L if k in self.ref.loss else 0.0
                if d['from'] == reg:
                    inflow -= f
                    tl += d['fl'] * f - f
                    loss += (d['share'] or 0) * L if k in self.ref.loss else 0.0
            for col, v in (('dispatch', e), ('inflow', inflow), ('transmission_losses', tl), ('interconnector_losses', loss)):
                g = r.get(col, 0.0 if col not in rep['cols'] else None)
                if g is None or abs(g - v) > 2e-3:
                    self.fail('summary', 'region %s: %s reported as %s, dispatch and flows give %.6f' % (reg, col, g, v))
            if reg in dem and not dem[reg]['def']:
                tot = (r.get('dispatch') or 0) + (r.get('inflow') or 0) - (r.get('transmission_losses') or 0) - (r.get('interconnector_losses') or 0)
                if abs(tot - dem[reg]['rhs']) > 5e-3:
                    self.fail('summary', 'region %s: reported components add to %.6f, demand is %.6f' % (reg, tot, dem[reg]['rhs']))

    FCAS_GROUPS = ('fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu',
                   'joint_capacity', 'energy_and_regulation_capacity')

    def availability(self):
        rep = self.obs.rep.get('get_fcas_availability')
        groups = {c['group'] for c in self.ref.lp.cons}
        if not groups & set(self.FCAS_GROUPS):
            return
        if not isinstance(rep, dict) or 'cols' not in rep:
            self.fail('availability', 'FCAS availability failed: %s' % rep)
            return
        x = self.xvec()
        want, vague = {}, set()
        for c in self.ref.lp.cons:
            if c['group'] not in self.FCAS_GROUPS:
                continue
            slack = c['rhs'] - self.lhs(c, x) if c['sense'] == '<=' else self.lhs(c, x) - c['rhs']
            seen = set()
            for v, k in c['coef'].items():
                n = self.ref.lp.names[v]
                key = n[1:4]
                if n[0] != 'bid' or key[2] == 'energy' or key in seen:
                    continue
                seen.add(key)
                kk = k if c['sense'] == '<=' else -k
                cur = want.setdefault(key, math.inf)
                if kk > 1e-4:
                    want[key] = min(cur, max(slack, 0.0) / kk)
                elif kk > 1e-9:
                    vague.add(key)      # a limit this flat turns rounding into megawatts
        got = {}
        has_side = 'dispatch_type' in rep['cols']
        for r in tab(rep):
            k = (r['unit'], r.get('dispatch_type'), r['service'])
            got.setdefault(k if has_side else (r['unit'], r['service']), []).append(r['availability'])
        for key, s in want.items():
            if key[0] in self.st.bdu or key in vague:
                continue      # one row per unit and service: ambiguous for two sided units
            d = self.obs.disp.get(key)
            if d is None:
                continue
            self.count('availability_rows')
            g = got.get(key if has_side else (key[0], key[2]))
            if not g:
                self.fail('availability', 'no availability reported for %s' % (key,))
                continue
            v = g[0]
            v = math.inf if v in ('inf', None) else v
            if v < d - TOL_MW:
                self.fail('availability', 'availability %s of %s below its enablement %.6f' % (v, key, d))
            exp = d + s
            if math.isinf(exp) != math.isinf(v) or (not math.isinf(exp) and abs(exp - v) > 2e-3 + 1e-4 * abs(exp)):
                # elastic limits that are violated leave no headroom
                self.fail('availability', 'availability of %s reported as %s, its FCAS limits allow %.6f' % (key, v, exp))

    def standard(self, price=True):
        if self.status():
            self.offers()
            self.groups()
            self.interconnectors()
            self.optimal()
            if price:
                self.prices()
            return True
        return False
