"""Random market programs.

A market is generated around a hidden operating point (unit targets, FCAS enablement, flows): right hand
sides are placed at or near the value the point gives, so the market is feasible by construction and most
constraints are close to binding.  `hostile` markets ignore the point and rely on violation costs.
"""
import random

FCAS = ['raise_reg', 'lower_reg', 'raise_5min', 'lower_5min', 'raise_60s', 'lower_60s', 'raise_6s', 'lower_6s', 'raise_1s', 'lower_1s']
CONT = [s for s in FCAS if not s.endswith('_reg')]
UNIT_NAMES = ['A', 'B', 'C', 'AB', 'A1', 'B1', 'C2', '1', '12', 'A12', 'BC', 'CAB', 'U_1', 'U_10', 'a', 'Z9']
REGION_NAMES = ['NSW', 'VIC', 'QLD', 'SA', 'TAS']


def table(cols, rows, types=None, index=None):
    t = {'cols': list(cols), 'rows': [list(r) for r in rows]}
    if types:
        t['types'] = types
    if index is not None:
        t['index'] = index
    return t


def rnd(r, lo, hi, d=2):
    return round(r.uniform(lo, hi), d)


class Market:
    def __init__(self, seed, feats, size=None, like=None):
        self.r = r = random.Random(seed)
        self.tiny = random.Random(seed ^ 0x71B4)    # of its own, so other choices stay what they were
        self.feats = set(feats)
        self.size = size or r.choice(['s', 's', 'm', 'm', 'l'])
        self.calls = []
        self.T = r.choice([5, 5, 5, 30, 60, 15]) if 'interval' in self.feats else r.choice([5, 5, 30])
        nreg = {'s': r.choice([1, 1, 2]), 'm': r.choice([2, 3]), 'l': r.choice([3, 4, 5])}[self.size]
        if 'inter' in self.feats:
            nreg = max(nreg, 2)
        if 'one_region' in self.feats:
            nreg = 1
        self.regions = r.sample(REGION_NAMES, nreg)
        nun = {'s': r.randint(2, 4), 'm': r.randint(3, 6), 'l': r.randint(5, 9)}[self.size]
        nun = max(nun, nreg)
        names = r.sample(UNIT_NAMES, nun) if r.random() < 0.7 else ['U%d' % i for i in range(nun)]
        self.units = []
        for i, n in enumerate(names):
            kind = 'gen'
            x = r.random()
            if i >= nreg:
                if 'load' in self.feats and x < 0.3:
                    kind = 'load'
                if 'bdu' in self.feats and x > 0.6:
                    kind = 'bdu'
            region = self.regions[i] if i < nreg else r.choice(self.regions)
            self.units.append({'name': n, 'kind': kind, 'region': region,
                               'lf': {'generator': rnd(r, 0.85, 1.1, 3), 'load': rnd(r, 0.85, 1.1, 3)}})
        r.shuffle(self.units)
        if r.random() < (0.4 if 'infeasible' in self.feats else 0.07) and nreg < 5 and 'one_region' not in self.feats:
            # a region without units: served over interconnectors or without demand
            self.regions = self.regions + [r.choice([x for x in REGION_NAMES if x not in self.regions])]
        self.explicit_dt = any(u['kind'] != 'gen' for u in self.units) or r.random() < 0.5
        self.lossf = 'lf' in self.feats and r.random() < 0.8
        if like is not None:
            # a different market over the same units and regions
            self.regions, self.units, self.T = like.regions, like.units, like.T
            self.explicit_dt, self.lossf = like.explicit_dt, like.lossf
        self.point = {}     # (unit, side, service) -> MW
        self.bids = {}      # (unit, side, service) -> [(band, vol, price)]
        self.flows = {}
        self.like = like
        self._bids()

    # ------------------------------------------------------------------ basics
    def sides(self, u):
        return {'gen': ['generator'], 'load': ['load'], 'bdu': ['generator', 'load']}[u['kind']]

    def unit_info(self):
        rows = []
        cols = ['unit', 'region']
        if self.explicit_dt:
            cols.append('dispatch_type')
        if self.lossf:
            cols.append('loss_factor')
        for u in self.units:
            for s in self.sides(u):
                row = [u['name'], u['region']]
                if self.explicit_dt:
                    row.append(s)
                if self.lossf:
                    row.append(u['lf'][s])
                rows.append(row)
        return table(cols, rows)

    def lf(self, u, s):
        return u['lf'][s] if self.lossf else 1.0

    def _stack(self, svc, side):
        r = self.r
        nb = r.choice([1, 1, 2, 2, 3, 4]) if r.random() < 0.93 else r.choice([7, 10])
        bands = list(range(1, nb + 1))
        if r.random() < 0.15:
            bands = sorted(r.sample(range(2, 11), nb)) if nb <= 9 else bands
        vols = [rnd(r, 1, 60, r.choice([0, 1, 2])) for _ in bands]
        if nb > 1 and r.random() < 0.2:
            vols[r.randrange(nb)] = 0.0
        if svc == 'energy':
            lo, hi = (-40, 300) if r.random() < 0.3 else (5, 150)
        else:
            lo, hi = 0, 40
            vols = [round(v / 3, 1) for v in vols]
        if nb > 1 and self.tiny.random() < 0.12 and not self.feats & {'ties', 'tiebreak'}:
            # a sliver of a band, down to the smallest volume that counts
            vols[self.tiny.randrange(nb)] = rnd(self.tiny, 0.001, self.tiny.choice([0.01, 0.05, 0.9]), 3)
        prices = sorted(rnd(r, lo, hi, 2) for _ in bands)
        return [(b, v, p) for b, v, p in zip(bands, vols, prices)]

    def _pick(self, cap):
        r = self.r
        x = r.random()
        if x < 0.15:
            return 0.0
        if x < 0.35:
            return round(cap, 4)
        return round(r.uniform(0, cap), 2 if cap > 0.05 else 4) if cap > 0 else 0.0

    def _bids(self):
        r = self.r
        self.services = []
        if 'fcas' in self.feats:
            pool = FCAS
            if 'reg' in self.feats:
                self.services = r.choice([['raise_reg'], ['lower_reg'], ['raise_reg', 'lower_reg'], ['raise_reg', 'lower_reg']])
                pool = CONT
            k = r.choice([0, 1, 1, 2, 3]) if 'reg' in self.feats else r.choice([1, 1, 2, 3, 4])
            self.services = self.services + r.sample([s for s in pool if s not in self.services], k)
        if self.like is not None and r.random() < 0.8:
            self.services = list(self.like.services)
        for u in self.units:
            on = r.choice(['generator', 'load'])
            for s in self.sides(u):
                st = self._stack('energy', s)
                self.bids[(u['name'], s, 'energy')] = st
                cap = sum(v for _, v, _ in st)
                p = min(self._pick(cap), cap)
                if u['kind'] == 'bdu' and s != on:
                    p = 0.0
                self.point[(u['name'], s, 'energy')] = p
                for svc in self.services:
                    if u['kind'] == 'bdu' and s == 'load' and svc in CONT:
                        continue
                    if r.random() < 0.55:
                        st = self._stack(svc, s)
                        self.bids[(u['name'], s, svc)] = st
                        cap = sum(v for _, v, _ in st)
                        self.point[(u['name'], s, svc)] = min(self._pick(cap), cap)
        if 'ties' in self.feats:
            self._make_ties()

    def _make_ties(self):
        """give several bands of different units the same price at the node"""
        r = self.r
        for _ in range(r.choice([1, 2, 2, 3])):
            side = r.choice(['generator', 'generator', 'load'])
            keys = [k for k in self.bids if k[2] == 'energy' and k[1] == side]
            if r.random() < 0.75:
                where = {u['name']: u['region'] for u in self.units}
                at = r.choice(self.regions)
                keys = [k for k in keys if where[k[0]] == at] if sum(where[k[0]] == at for k in keys) > 1 else keys
            if len(keys) < 2:
                continue
            chosen = r.sample(keys, min(len(keys), r.choice([2, 2, 3, 4])))
            price = float(r.choice([20, 45, 60, 80]))
            both = [(g, l) for g in self.bids for l in self.bids if g[2] == l[2] == 'energy' and g[1] == 'generator' and l[1] == 'load' and g[0] != l[0]]
            flip = r.random() < 0.2 and bool(both)
            if flip:
                # as costly to run as to consume: not a tie, the two are on different sides
                chosen = r.choice(both)
            for k in chosen:
                st = self.bids[k]
                i = r.randrange(len(st))
                u = next(x for x in self.units if x['name'] == k[0])
                if self.lossf:
                    u['lf'][k[1]] = 1.0 if r.random() < 0.85 else u['lf'][k[1]]
                prices = [p for _, _, p in st]
                price = -abs(price) if flip and k[1] == 'generator' else abs(price)
                prices[i] = price
                for j in range(i):
                    prices[j] = min(prices[j], price)
                for j in range(i + 1, len(prices)):
                    prices[j] = max(prices[j], price)
                vols = [v for _, v, _ in st]
                x = r.random()
                if x < 0.15:
                    vols[i] = rnd(r, 200, 1500, 1)
                elif x < 0.3:
                    vols[i] = rnd(r, 0.05, 0.95, 2)
                self.bids[k] = [(b, v, p) for (b, _, _), v, p in zip(st, vols, prices)]

    def bid_tables(self, which):
        r = self.r
        bands = sorted({b for st in self.bids.values() for b, _, _ in st})
        if bands[0] != 1:
            bands = [1] + bands
        svc_col = any(k[2] != 'energy' for k in self.bids) or r.random() < 0.5
        cols = ['unit'] + (['dispatch_type'] if self.explicit_dt else []) + (['service'] if svc_col else []) + [str(b) for b in bands]
        rows = []
        for (u, s, svc), st in self.bids.items():
            d = {b: (v, p) for b, v, p in st}
            row = [u] + ([s] if self.explicit_dt else []) + ([svc] if svc_col else [])
            if which == 'v':
                row += [d[b][0] if b in d else 0.0 for b in bands]
            else:
                last = min(p for _, _, p in st)
                for b in bands:
                    if b in d:
                        last = d[b][1]
                    row.append(last)
            rows.append(row)
        r.shuffle(rows)
        return table(cols, rows, {str(b): 'float' for b in bands})

    def add(self, m, feat=None, **a):
        c = {'m': m, 'a': a}
        if feat:
            c['feat'] = feat
        self.calls.append(c)
        return c

    def vcost(self, group, p=None):
        """maybe a violation cost for this group"""
        r = self.r
        p = p if p is not None else (0.4 if 'elastic' in self.feats else 0.0)
        if 'elastic:' + group in self.feats:
            p = 1.0
        if r.random() < p:
            if 'zerocost' in self.feats and r.random() < 0.08:
                return 0.0
            return float(r.choice([r.randint(1, 60), r.randint(100, 400), 1000, 5000, 12000]))
        return None

    def set_costs(self, sets):
        # half of the tables are cheap enough for a violation to be worthwhile
        top = self.r.choice([12, 3000])
        return table(['set', 'cost'], [[s, float(self.r.randint(1, top))] for s in sets], {'cost': 'float'})

    def withcost(self, a, group, p=None):
        v = self.vcost(group, p)
        if v is not None:
            a['violation_cost'] = v
        return a

    # ------------------------------------------------------------------ network
    def gen_inter(self):
        r = self.r
        if len(self.regions) < 2:
            return
        n = r.choice([1, 1, 2, 3]) if len(self.regions) < 4 else r.choice([2, 3, 4])
        rows, losses, bps = [], [], []
        self.inter = {}
        use_lf = 'transloss' in self.feats and r.random() < 0.6
        links = 'links' in self.feats
        all_losses = 'losses' in self.feats
        quads = r.random()
        for i in range(n):
            a, b = r.sample(self.regions, 2)
            name = r.choice(['I%d' % i, '%s%s%d' % (a[0], b[0], i), 'N-Q-%d' % i])
            mx = rnd(r, 20, 120, 0)
            mn = -rnd(r, 20, 120, 0)
            if links and r.random() < 0.6:
                f = self._pick(mx)
                fwd = r.random() < 0.5
                parts = [(name + '_f', b, a, 0.0, mx, 1, f if fwd else 0.0), (name + '_r', a, b, 0.0, -mn, -1, 0.0 if fwd else min(f, -mn))]
                if r.random() < 0.3:
                    parts = [(name + '_f', b, a, 0.0, mx, 1, f if fwd else 0.0), (name + '_r', b, a, mn, 0.0, 1, 0.0 if fwd else -min(f, -mn))]
            else:
                f = r.choice([0.0, mx, mn, rnd(r, mn, mx, 2), rnd(r, mn, mx, 2), rnd(r, mn, mx, 2)])
                if r.random() < 0.1:
                    mn = 0.0
                    f = abs(f) if abs(f) <= mx else mx
                parts = [(name, b, a, mn, mx, 1, f)]
            quad = {'absq': [r.choice([0.0, rnd(r, 0.0, 0.03, 4)]), rnd(r, 0.00005, 0.0012, 6)]}
            if r.random() < 0.25:
                quad = {'poly': [0.0, rnd(r, -0.02, 0.02, 4), rnd(r, 0.0001, 0.0012, 6)]}
            share = r.choice([0.5, 0.0, 1.0, rnd(r, 0, 1, 2)])
            for (link, to, fr, lo, hi, gcf, fl) in parts:
                tl = rnd(r, 0.92, 1.05, 3) if use_lf else 1.0
                fl_ = rnd(r, 0.92, 1.05, 3) if use_lf else 1.0
                rows.append([name, link, to, fr, float(lo), float(hi), gcf, fl_, tl])
                if all_losses:
                    k = r.choice([2, 3, 4, 6, 9])
                    if 'uneven' in self.feats and r.random() < 0.5:
                        pts = sorted({float(lo), float(hi)} | {rnd(r, lo, hi, 1) for _ in range(k)})
                        pts = [p for j, p in enumerate(pts) if j == 0 or p - pts[j - 1] > 0.5]
                        if pts[-1] < hi:
                            pts[-1] = float(hi)
                        if len(pts) < 2:
                            pts = [float(lo), float(hi)]
                    else:
                        pts = [lo + (hi - lo) * j / k for j in range(k + 1)]
                        pts[-1] = float(hi)
                    if lo < 0 < hi and r.random() < 0.5:
                        pts = sorted(set(pts) | {0.0})
                    if r.random() < 0.12:
                        fl = r.choice(pts)
                        if link != name:
                            fl = fl if fl == 0 or all(p[6] == 0 for p in parts if p[0] != link) else 0.0
                    seg0 = r.choice([0, 0, 1, -2])
                    pb = [[name, link, seg0 + j, float(p)] for j, p in enumerate(pts)]
                    bps += pb
                    losses.append([name, link, share, quad])
                    ys = [evalf(quad, p) for p in pts]
                    ls = interp(pts, ys, fl)
                else:
                    ls = 0.0
                self.inter[(name, link)] = {'to': to, 'from': fr, 'tl': tl, 'fl': fl_, 'flow': fl, 'loss': ls, 'share': share, 'gcf': gcf}
        order = list(range(len(rows)))
        r.shuffle(order)
        rows = [rows[i] for i in order]
        has_links = any(x[0] != x[1] for x in rows)
        cols = ['interconnector', 'link', 'to_region', 'from_region', 'min', 'max', 'generic_constraint_factor', 'from_region_loss_factor', 'to_region_loss_factor']
        keep = [0] + ([1] if has_links or r.random() < 0.3 else []) + [2, 3, 4, 5] + ([6] if has_links or r.random() < 0.3 else []) + ([7, 8] if use_lf or r.random() < 0.2 else [])
        t = table([cols[i] for i in keep], [[x[i] for i in keep] for x in rows], {'generic_constraint_factor': 'int'} if 6 in keep else None)
        self.add('set_interconnectors', 'inter', interconnector_directions_and_limits=t)
        if all_losses:
            r.shuffle(losses)
            r.shuffle(bps)
            wl = [0, 1, 2, 3] if has_links or r.random() < 0.3 else [0, 2, 3]
            lc = ['interconnector', 'link', 'from_region_loss_share', 'loss_function']
            bc = ['interconnector', 'link', 'loss_segment', 'break_point']
            self.add('set_interconnector_losses', 'losses',
                     loss_functions=table([lc[i] for i in wl], [[x[i] for i in wl] for x in losses], {'loss_function': 'fn', 'from_region_loss_share': 'float'}),
                     interpolation_break_points=table([bc[i] for i in wl], [[x[i] for i in wl] for x in bps], {'loss_segment': 'int', 'break_point': 'float'}))

    def point_balance(self, region):
        x = 0.0
        for u in self.units:
            if u['region'] == region:
                for s in self.sides(u):
                    x += self.point[(u['name'], s, 'energy')] * (1 if s == 'generator' else -1)
        for k, d in getattr(self, 'inter', {}).items():
            if d['to'] == region:
                x += d['tl'] * d['flow'] - (1 - d['share']) * d['loss']
            if d['from'] == region:
                x -= d['fl'] * d['flow'] + d['share'] * d['loss']
        return x

    def gen_demand(self, p_elastic=None):
        r = self.r
        rows = [[reg, round(self.point_balance(reg), 6)] for reg in self.regions]
        if 'hostile' in self.feats:
            rows = [[x, y + rnd(r, -20, 40, 1)] for x, y in rows]
        r.shuffle(rows)
        a = {'demand': table(['region', 'demand'], rows, {'demand': 'float'})}
        if 'hostile' in self.feats:
            a['violation_cost'] = float(r.choice([2000, 8000, 15000]))
        else:
            self.withcost(a, 'demand', p_elastic)
        if 'infeasible' in self.feats and r.random() < 0.7:
            # no dispatch can balance: more than everything offered and imported, or less than everything withdrawn
            big = sum(v for st in self.bids.values() for _, v, _ in st) + 3 * 120 * 4 + 50.0
            row = r.choice(a['demand']['rows'])
            bare = [x for x in a['demand']['rows'] if x[0] not in {u['region'] for u in self.units}]
            if bare and r.random() < 0.6:
                row = r.choice(bare)
            row[1] = big if r.random() < 0.6 else -big
            a.pop('violation_cost', None)
        self.add('set_demand_constraints', 'demand', **a)

    # ------------------------------------------------------------------ unit limits
    def some_sides(self, p=0.7):
        r = self.r
        out = []
        for u in self.units:
            if r.random() < p:
                out += [(u, s) for s in self.sides(u)]
        return out

    def slack(self, scale=8.0, breakp=0.0):
        r = self.r
        x = r.random()
        if breakp and x > 1 - breakp:
            return -rnd(r, 0.5, scale, 2)
        if x < 0.45:
            return 0.0
        return rnd(r, 0, scale, 2)

    def gen_capacity(self):
        br = 0.25 if 'hostile' in self.feats else 0.0
        rows = [[u['name'], s, max(0.0, round(self.point[(u['name'], s, 'energy')] + self.slack(10, br), 4))] for u, s in self.some_sides()]
        rows = rows or [[self.units[0]['name'], self.sides(self.units[0])[0], 500.0]]
        a = {'unit_limits': self.dtab(['unit', 'dispatch_type', 'capacity'], rows)}
        self.add('set_unit_bid_capacity_constraints', 'capacity', **self.withcost(a, 'unit_bid_capacity'))

    def gen_uigf(self):
        us = [u for u in self.units if u['kind'] == 'gen']
        us = [u for u in us if self.r.random() < 0.6] or us[:1]
        br = 0.25 if 'hostile' in self.feats else 0.0
        rows = [[u['name'], max(0.0, round(self.point[(u['name'], 'generator', 'energy')] + self.slack(10, br), 4))] for u in us]
        a = {'unit_limits': table(['unit', 'capacity'], rows, {'capacity': 'float'})}
        self.add('set_unconstrained_intermittent_generation_forecast_constraint', 'uigf', **self.withcost(a, 'uigf_capacity'))

    def dtab(self, cols, rows, types=None):
        """drop the dispatch_type column when the market does not use it"""
        if not self.explicit_dt:
            i = cols.index('dispatch_type')
            cols = cols[:i] + cols[i + 1:]
            rows = [x[:i] + x[i + 1:] for x in rows]
        self.r.shuffle(rows)
        t = {c: 'float' for c in cols if c not in ('unit', 'dispatch_type', 'service')}
        t.update(types or {})
        return table(cols, rows, t)

    def net_point(self, u):
        return self.point.get((u['name'], 'generator', 'energy'), 0.0) - self.point.get((u['name'], 'load', 'energy'), 0.0)

    def gen_ramp(self, fast=None, run_type=None):
        r = self.r
        h = self.T / 60.0
        us = [u for u in self.units if r.random() < 0.85] or [self.units[0]]
        if not any(u['kind'] != 'bdu' for u in us):
            us += [u for u in self.units if u['kind'] != 'bdu'][:1]
        rows, scada = [], []
        hostile = 'hostile' in self.feats
        self.x0 = {}
        for u in us:
            if u['kind'] == 'bdu':
                p = self.net_point(u)
                x0 = round(p + rnd(r, -40, 40, 1), 2) if r.random() < 0.8 else r.choice([0.0, p])
                # rates high enough for the planted point, sometimes exactly
                need_up, need_dn = max(0.0, p - x0), max(0.0, x0 - p)
                k = 1 if hostile else (1.0 + (0.0 if r.random() < 0.3 else r.uniform(0, 1.5)))
                rates = {}
                for nm, need in (('gu', need_up), ('ld', need_up), ('gd', need_dn), ('lu', need_dn)):
                    rates[nm] = round(max(need / h * k, rnd(r, 0, 60, 0)) + 0.0001, 4)
                    if r.random() < 0.5 and nm in ('gu', 'ld', 'gd', 'lu'):
                        rates[nm] = round(rates[nm] * (1 + r.random()), 3)
                if hostile and r.random() < 0.5:
                    rates = {q: rnd(r, 0, 300, 0) for q in rates}
                rows.append([u['name'], 'generator', x0, rates['gu'], rates['gd']])
                rows.append([u['name'], 'load', x0, rates['lu'], rates['ld']])
                self.x0[u['name']] = x0
                if r.random() < 0.4:
                    scada.append([u['name'], round(need_up / h * r.choice([1, 1.5]) + r.choice([0.001, 30]), 3), round(need_dn / h * r.choice([1, 1.5]) + r.choice([0.001, 30]), 3)])
            else:
                s = self.sides(u)[0]
                p = self.point[(u['name'], s, 'energy')]
                x0 = round(max(0.0, p + rnd(r, -25, 25, 1)), 2) if r.random() < 0.85 else round(p, 2)
                up = round(max(0.0, p - x0) / h + r.choice([0.0, rnd(r, 0, 120, 1)]) + 0.0001, 4)
                dn = round(max(0.0, x0 - p) / h + r.choice([0.0, rnd(r, 0, 120, 1)]) + 0.0001, 4)
                if hostile:
                    up, dn = rnd(r, 0, 300, 0), rnd(r, 0, 300, 0)
                # a unit that may not move at all in a direction the planted point does not need
                still_up, still_dn = r.random() < 0.12 and (hostile or p <= x0), r.random() < 0.12 and (hostile or p >= x0)
                if r.random() < 0.4:
                    up, dn = 0.0 if still_up else up, 0.0 if still_dn else dn
                rows.append([u['name'], s, x0, up, dn])
                self.x0[u['name']] = x0
                if r.random() < 0.5:
                    su = None if r.random() < 0.25 else (round(up * r.choice([1.3, 1.0, 2]), 4) if not hostile else rnd(r, 0, 300, 0))
                    sd = None if r.random() < 0.25 else (round(dn * r.choice([1.3, 1.0, 2]), 4) if not hostile else rnd(r, 0, 300, 0))
                    if r.random() < 0.5 and not hostile:
                        # telemetry is the binding one: bid rates get slack instead
                        if su is not None:
                            su, rows[-1][3] = up, su if su > up else round(up + rnd(r, 0, 80, 1), 4)
                        if sd is not None:
                            sd, rows[-1][4] = dn, sd if sd > dn else round(dn + rnd(r, 0, 80, 1), 4)
                    scada.append([u['name'], 0.0 if still_up else su, 0.0 if still_dn else sd])
        a = {'ramp_details': self.dtab(['unit', 'dispatch_type', 'initial_output', 'ramp_up_rate', 'ramp_down_rate'], rows)}
        if scada and 'scada' in self.feats and r.random() < 0.75:
            cols = ['unit', 'scada_ramp_up_rate', 'scada_ramp_down_rate']
            if r.random() < 0.15:
                k = r.choice([1, 2])
                scada = [[x[0], x[k]] for x in scada]
                cols = ['unit', cols[k]]
            r.shuffle(scada)
            a['scada_ramp_rates'] = table(cols, scada, {c: 'float' for c in cols[1:]})
        if fast is not None:
            a['fast_start_profiles'] = fast
            a['run_type'] = run_type
        self.add('set_unit_ramp_rate_constraints', 'ramp', **self.withcost(a, 'ramp'))

    def fast_units(self):
        r = self.r
        us = [u for u in self.units if u['kind'] == 'gen']
        k = r.randint(1, max(1, len(us) - 1)) if len(us) > 1 else 1
        out = []
        for u in r.sample(us, min(k, len(us))):
            mode = r.choice([0, 1, 2, 2, 3, 3, 4, 4, 5])
            p = self.point[(u['name'], 'generator', 'energy')]
            ml = rnd(r, 1, 25, 1)
            t2, t4 = float(r.randint(1, 12)), float(r.choice([r.randint(1, 12)] * 6 + [0]))
            t = 0.0
            cap = sum(v for _, v, _ in self.bids[(u['name'], 'generator', 'energy')])
            ml = min(ml, round(cap, 2))
            if mode in (0, 1):
                p = 0.0
                t = float(r.randint(0, 4))
            elif mode == 2:
                t = rnd(r, 0, t2, r.choice([0, 1]))
                t = min(t, t2)
                p = t / t2 * ml
            elif mode == 3:
                p = max(p, ml)
            elif mode == 4:
                t = min(rnd(r, 0, t4, r.choice([0, 1])), t4)
                p = max(p, ml * (1 - t / t4)) if t4 else p
            self.point[(u['name'], 'generator', 'energy')] = p
            since = None
            if mode in (3, 4, 5) and r.random() < 0.6:
                since = rnd(r, 0, self.T, 1) if r.random() < 0.9 else 0.0
            out.append({'unit': u['name'], 'end_mode': mode, 'current_mode': r.choice([0, 1, 2, 3, 4, 5]), 'time_in_end_mode': t,
                        'mode_two_length': t2, 'mode_four_length': t4, 'min_loading': ml, 'time_since_end_of_mode_two': since})
        return out

    def fs_table(self, prof, cols):
        t = {c: 'float' for c in cols if c != 'unit'}
        for c in ('end_mode', 'current_mode'):
            if c in cols:
                t[c] = 'int'
        return table(cols, [[p[c] for c in cols] for p in prof], t)

    def gen_fast_start(self, prof):
        a = {'fast_start_profiles': self.fs_table(prof, ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading'])}
        self.add('set_fast_start_constraints', 'fast_start', **self.withcost(a, 'fast_start'))

    # ------------------------------------------------------------------ FCAS
    def gen_requirements(self):
        r = self.r
        rows = []
        svcs = [s for s in self.services if any(k[2] == s for k in self.bids)]
        if not svcs:
            return False
        with_type = r.random() < 0.6
        n = 0
        for s in svcs:
            for _ in range(r.choice([1, 1, 2])):
                prov = sorted({u['region'] for u in self.units for sd in self.sides(u) if (u['name'], sd, s) in self.bids})
                if not prov:
                    continue
                regs = r.sample(prov, r.randint(1, len(prov)))
                if r.random() < 0.2:
                    extra = [x for x in self.regions if x not in regs]
                    if extra:
                        regs.append(r.choice(extra))
                rs = [(g, s) for g in regs]
                if r.random() < 0.12 and len(svcs) > 1:
                    s2 = r.choice([x for x in svcs if x != s])
                    rs += [(g, s2) for g in regs]
                tot = sum(self.point.get((u['name'], sd, q), 0.0) for u in self.units for sd in self.sides(u) for g, q in rs if u['region'] == g)
                typ = r.choice(['=', '>=', '>=', '<=']) if with_type else '='
                vol = tot
                if typ == '>=':
                    vol = tot - self.slack(5)
                elif typ == '<=':
                    vol = tot + self.slack(5)
                if 'hostile' in self.feats:
                    vol = tot + rnd(r, -8, 20, 1)
                name = 'F%d%s' % (n, s if r.random() < 0.5 else '')
                n += 1
                for g, q in rs:
                    rows.append([name, q, g, round(vol, 5)] + ([typ] if with_type else []))
        if rows and r.random() < 0.06:
            # a requirement nobody offers to meet: fine when nothing is required, otherwise only with a violation cost
            free = [(g, q) for g in self.regions for q in FCAS
                    if not any(k[2] == q and u['region'] == g for u in self.units for k in self.bids if k[0] == u['name'])]
            if free:
                g, q = r.choice(free)
                rows.append(['FX', q, g, r.choice([0.0, 0.0, 3.0]) if 'hostile' in self.feats or 'infeasible' in self.feats else 0.0] + ([r.choice(['=', '>='])] if with_type else []))
        if not rows:
            return False
        self.fcas_rows = rows
        if r.random() < 0.5:
            r.shuffle(rows)
        a = {'fcas_requirements': table(['set', 'service', 'region', 'volume'] + (['type'] if with_type else []), rows, {'volume': 'float'})}
        if 'hostile' in self.feats:
            a['violation_cost'] = float(r.choice([200, 1000, 6000]))
        else:
            a = self.withcost(a, 'fcas')
            if isinstance(a.get('violation_cost'), float) and r.random() < 0.4:
                sets = sorted({x[0] for x in rows})
                some = [s for s in sets if r.random() < 0.6] or sets[:1]
                a['violation_cost'] = self.set_costs(some)
        self.add('set_fcas_requirements_constraints', 'fcas', **a)
        return True

    def fcas_keys(self, svcs):
        return [k for k in self.bids if k[2] in svcs]

    def gen_max_avail(self):
        ks = [k for k in self.fcas_keys(FCAS) if self.r.random() < 0.8]
        if not ks:
            return
        br = 0.2 if 'hostile' in self.feats else 0
        rows = [[k[0], k[1], k[2], max(0.0, round(self.point[k] + self.slack(6, br), 4))] for k in ks]
        a = {'fcas_max_availability': self.dtab(['unit', 'dispatch_type', 'service', 'max_availability'], rows)}
        self.add('set_fcas_max_availability', 'maxavail', **self.withcost(a, 'fcas_max_availability'))

    def _trap(self, e, c, up_extra, dn_extra):
        r = self.r
        us = r.choice([0.0, 0.3, 1.0, 1.0, 2.0, rnd(r, 0, 2, 2)])
        ls = r.choice([0.0, 0.3, 1.0, 1.0, 2.0, rnd(r, 0, 2, 2)])
        br = 0.2 if 'hostile' in self.feats else 0
        emax = round(e + us * c + up_extra + self.slack(10, br), 5)
        emin = round(e - ls * c - dn_extra - self.slack(10, br), 5)
        mx = round(c + r.choice([0.5, 1.0, rnd(r, 1, 20, 1)]), 4)
        return mx, emin, emin + ls * mx, emax - us * mx, emax

    def gen_joint_capacity(self):
        rows = []
        for k in self.fcas_keys(CONT):
            if self.r.random() < 0.85:
                u = next(x for x in self.units if x['name'] == k[0])
                P = lambda s, q: self.point.get((k[0], s, q), 0.0)
                if u['kind'] == 'bdu':
                    e = self.net_point(u)
                    ue, de = P('generator', 'raise_reg') + P('load', 'raise_reg'), P('generator', 'lower_reg') + P('load', 'lower_reg')
                else:
                    e = P(k[1], 'energy')
                    ue, de = P(k[1], 'raise_reg'), P(k[1], 'lower_reg')
                    if k[1] == 'load':
                        ue, de = de, ue
                rows.append([k[0], k[1], k[2]] + list(self._trap(e, self.point[k], ue, de)))
        if not rows:
            return
        a = {'contingency_trapeziums': self.dtab(['unit', 'dispatch_type', 'service', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point', 'enablement_max'], rows)}
        self.add('set_joint_capacity_constraints', 'jointcap', **self.withcost(a, 'joint_capacity'))

    def gen_energy_reg(self):
        rows = []
        for k in self.fcas_keys(('raise_reg', 'lower_reg')):
            if self.r.random() < 0.85:
                u = next(x for x in self.units if x['name'] == k[0])
                e = self.point[(k[0], k[1], 'energy')]
                if u['kind'] == 'bdu' and k[1] == 'load':
                    e = -e
                rows.append([k[0], k[1], k[2]] + list(self._trap(e, self.point[k], 0, 0)))
        if not rows:
            return
        a = {'regulation_trapeziums': self.dtab(['unit', 'dispatch_type', 'service', 'max_availability', 'enablement_min', 'low_break_point', 'high_break_point', 'enablement_max'], rows)}
        self.add('set_energy_and_regulation_capacity_constraints', 'engreg', **self.withcost(a, 'energy_and_regulation_capacity'))

    def gen_joint_ramp(self, fast=None, run_type=None, prof=()):
        r = self.r
        h = self.T / 60.0
        rows = []
        have = {k[0] for k in self.fcas_keys(('raise_reg', 'lower_reg'))}
        for u in self.units:
            if u['name'] not in have and r.random() < 0.5:
                continue
            if r.random() < 0.12:
                continue
            P = lambda s, q: self.point.get((u['name'], s, q), 0.0)
            if u['kind'] == 'bdu':
                e = self.net_point(u)
                up = P('generator', 'raise_reg') + P('load', 'raise_reg')
                dn = P('generator', 'lower_reg') + P('load', 'lower_reg')
                x0 = round(e + rnd(r, -10, 10, 1), 2)
            elif u['kind'] == 'gen':
                e = P('generator', 'energy')
                up, dn = P('generator', 'raise_reg'), P('generator', 'lower_reg')
                x0 = round(max(0, e + rnd(r, -10, 10, 1)), 2)
            else:
                e = -P('load', 'energy')
                up, dn = P('load', 'raise_reg'), P('load', 'lower_reg')
                x0 = -round(max(0, -e + rnd(r, -10, 10, 1)), 2)
            if r.random() < 0.12:
                x0 = 0.0
            ru = round(max(0.0, e + up - x0) / h + r.choice([0.001, 0.001, rnd(r, 0, 80, 1)]), 4)
            rd = round(max(0.0, x0 - (e - dn)) / h + r.choice([0.001, 0.001, rnd(r, 0, 80, 1)]), 4)
            if 'hostile' in self.feats:
                ru, rd = rnd(r, 0, 200, 1), rnd(r, 0, 200, 1)
            for p in prof:
                # the time since the unit was released limits its rise; keep the planted point reachable most of the time
                if p['unit'] == u['name'] and run_type == 'fast_start_second_run' and p['time_since_end_of_mode_two']:
                    need = (e + up - p['min_loading']) * 60 / p['time_since_end_of_mode_two']
                    if 'hostile' not in self.feats and need > 0 and r.random() < 0.9:
                        ru = round(need + r.choice([0.01, 0.01, rnd(r, 0, 60, 1)]), 4)
            if r.random() < 0.12:
                ru, rd = r.choice([(None, rd), (ru, None)])       # telemetry of one direction is missing
            rows.append([u['name'], abs(x0) if u['kind'] == 'load' else x0, ru, rd])
        if not rows:
            return
        a = {'scada_ramp_rates': table(['unit', 'initial_output', 'scada_ramp_up_rate', 'scada_ramp_down_rate'], rows,
                                       {c: 'float' for c in ['initial_output', 'scada_ramp_up_rate', 'scada_ramp_down_rate']})}
        if fast is not None:
            a['fast_start_profiles'] = fast
            a['run_type'] = run_type
        self.add('set_joint_ramping_constraints_reg', 'jointramp', **self.withcost(a, 'joint_ramping'))

    # ------------------------------------------------------------------ generic constraints
    def gen_generic(self, fcas_terms=True):
        r = self.r
        n = r.choice([1, 2, 2, 3, 4])
        sets = {}
        urows, rrows, irows = [], [], []
        svcs = ['energy'] + self.services
        names = ['G%d' % i for i in range(n)]
        lhs = {}
        targets = list(names)
        fsets = sorted({x[0] for x in getattr(self, 'fcas_rows', [])})
        if fsets and fcas_terms and r.random() < 0.5:
            targets.append(r.choice(fsets))
        if r.random() < 0.25:
            targets.append('NOSUCHSET')
        for s in targets:
            v = 0.0
            kinds = r.sample(['u', 'r', 'i'], r.randint(1, 3))
            only_fcas = s in fsets
            if 'u' in kinds or ('i' in kinds and not getattr(self, 'inter', None)):
                for u in r.sample(self.units, r.randint(1, min(3, len(self.units)))):
                    for svc in r.sample(svcs, r.randint(1, min(2, len(svcs)))):
                        k = r.choice([1.0, -1.0, 0.5, rnd(r, -2, 2, 2) or 1.0])
                        if only_fcas:
                            k = r.choice([-1.0, -0.5, 0.5])
                        urows.append([s, u['name'], svc, k])
                        for sd in self.sides(u):
                            sg = -1 if (u['kind'] == 'bdu' and sd == 'load' and svc == 'energy') else 1
                            v += sg * k * self.point.get((u['name'], sd, svc), 0.0)
            if 'r' in kinds:
                for g in r.sample(self.regions, r.randint(1, min(2, len(self.regions)))):
                    for svc in r.sample(svcs, r.randint(1, min(2, len(svcs)))):
                        k = r.choice([1.0, -1.0, 0.5, rnd(r, -2, 2, 2) or 1.0])
                        rrows.append([s, g, svc, k])
                        for u in self.units:
                            if u['region'] == g:
                                for sd in self.sides(u):
                                    sg = -1 if (u['kind'] == 'bdu' and sd == 'load' and svc == 'energy') else 1
                                    v += sg * k * self.point.get((u['name'], sd, svc), 0.0)
            if 'i' in kinds and getattr(self, 'inter', None):
                inames = sorted({i for i, _ in self.inter})
                for i in r.sample(inames, r.randint(1, min(2, len(inames)))):
                    k = r.choice([1.0, -1.0, 0.5, rnd(r, -2, 2, 2) or 1.0])
                    irows.append([s, i, k])
                    for (a, l), d in self.inter.items():
                        if a == i:
                            v += k * d['gcf'] * d['flow']
            lhs[s] = v
        rows = []
        for s in names:
            typ = r.choice(['<=', '>=', '<=', '>=', '='])
            v = lhs.get(s, 0.0)
            sl = self.slack(10, 0.3 if 'hostile' in self.feats else 0)
            rhs = v + sl if typ == '<=' else (v - sl if typ == '>=' else v)
            rows.append([s, typ, round(rhs, 6)])
        r.shuffle(rows)
        a = {'generic_constraint_parameters': table(['set', 'type', 'rhs'], rows, {'rhs': 'float'})}
        if 'hostile' in self.feats:
            a['violation_cost'] = float(r.choice([50, 700, 4000]))
        else:
            a = self.withcost(a, 'generic')
            if isinstance(a.get('violation_cost'), float) and r.random() < 0.4:
                some = [s for s in names if r.random() < 0.6] or names[:1]
                if r.random() < 0.3:
                    some = some + ['OTHER']
                a['violation_cost'] = self.set_costs(some)
        # an FCAS requirement modified by generic terms keeps the planted point feasible
        for s in targets:
            if s in fsets and abs(lhs.get(s, 0.0)) > 0:
                for c in self.calls:
                    if c['m'] == 'set_fcas_requirements_constraints':
                        t = c['a']['fcas_requirements']
                        i, j = t['cols'].index('set'), t['cols'].index('volume')
                        for row in t['rows']:
                            if row[i] == s:
                                row[j] = round(row[j] + lhs[s], 6)
        calls = [('set_generic_constraints', a)]
        if urows:
            calls.append(('link_units_to_generic_constraints', {'unit_coefficients': table(['set', 'unit', 'service', 'coefficient'], urows, {'coefficient': 'float'})}))
        if rrows:
            calls.append(('link_regions_to_generic_constraints', {'region_coefficients': table(['set', 'region', 'service', 'coefficient'], rrows, {'coefficient': 'float'})}))
        if irows:
            calls.append(('link_interconnectors_to_generic_constraints', {'interconnector_coefficients': table(['set', 'interconnector', 'coefficient'], irows, {'coefficient': 'float'})}))
        r.shuffle(calls)
        for m, a in calls:
            self.add(m, 'generic', **a)

    # ------------------------------------------------------------------ all together
    def build(self):
        r, f = self.r, self.feats
        prof = self.fast_units() if 'faststart' in f else []
        first = [('set_unit_volume_bids', {'volume_bids': self.bid_tables('v')}), ('set_unit_price_bids', {'price_bids': self.bid_tables('p')})]
        for m, a in first:
            self.add(m, 'bids', **a)
        if 'inter' in f:
            self.gen_inter()
        self.gen_demand()
        steps = []
        if 'capacity' in f:
            steps.append(self.gen_capacity)
        if 'uigf' in f:
            steps.append(self.gen_uigf)
        if 'ramp' in f:
            if prof and r.random() < 0.7:
                rt = r.choice(['fast_start_first_run', 'fast_start_second_run', 'fast_start_second_run'])
                cols = ['unit', 'current_mode'] if rt == 'fast_start_first_run' else ['unit', 'end_mode', 'min_loading', 'time_since_end_of_mode_two']
                t = self.fs_table(prof, cols)
                self.fast_run = rt
                steps.append(lambda: self.gen_ramp(t, rt))
                if rt == 'fast_start_second_run' and 'fsramp_exact' not in f:
                    pass
            else:
                steps.append(self.gen_ramp)
        if prof and 'fsprofile' in f:
            steps.append(lambda: self.gen_fast_start(prof))
        if 'fcas' in f:
            steps.append(self.gen_requirements)
            if 'maxavail' in f:
                steps.append(self.gen_max_avail)
            if 'jointcap' in f:
                steps.append(self.gen_joint_capacity)
            if 'engreg' in f:
                steps.append(self.gen_energy_reg)
            if 'jointramp' in f and prof and r.random() < 0.8:
                jrt = r.choice(['fast_start_first_run', 'fast_start_second_run', 'fast_start_second_run'])
                jcols = ['unit', 'current_mode'] if jrt == 'fast_start_first_run' else ['unit', 'end_mode', 'min_loading', 'time_since_end_of_mode_two']
                jt = self.fs_table(prof, jcols)
                steps.append(lambda: self.gen_joint_ramp(jt, jrt, prof))
            elif 'jointramp' in f:
                steps.append(self.gen_joint_ramp)
        r.shuffle(steps)
        for s in steps:
            s()
        if 'generic' in f:
            self.gen_generic()
        if 'tiebreak' in f:
            self.add('set_tie_break_constraints', 'tiebreak', cost=r.choice([1e-6, 1e-4, 1e-3]))
        d = {}
        if 'rerun' in f and r.random() < 0.7:
            d = dict(energy_market_ceiling_price=float(r.choice([150, 300, 1000, 14500])), energy_market_floor_price=float(r.choice([-1000, -100, -20])),
                     fcas_market_ceiling_price=float(r.choice([50, 300, 1000, 14500])), allow_over_constrained_dispatch_re_run=True)
        self.add('dispatch', 'dispatch', **d)
        self.calls.append({'report': True})
        return {'kind': 'market', 'regions': self.regions, 'unit_info': self.unit_info(), 'dispatch_interval': self.T, 'calls': self.calls,
                'stop_on_error': True}


def evalf(spec, x):
    if 'poly' in spec:
        return sum(k * x ** i for i, k in enumerate(spec['poly']))
    a, b = spec['absq']
    return a * abs(x) + b * x * x


def interp(xs, ys, x):
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            if xs[i + 1] == xs[i]:
                return ys[i]
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[0] if x < xs[0] else ys[-1]
