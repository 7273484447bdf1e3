"""C13: over-constrained dispatch re-run."""
import copy, random
from mcheck import MarketCheck, sig_of, summary_sample, choose
from gen_market import Market
from monitor import Judge, Obs

NEED = ('get_unit_dispatch', 'get_energy_prices', 'get_interconnector_flows')


def same(a, b, tol):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol * max(1.0, abs(a))


class Rerun(MarketCheck):
    def case(self, ctx, seed, idx):
        rng = random.Random(seed ^ 0x5eed)
        feats = choose(rng, self.PROFILES)
        job = Market(seed, feats).build()
        at = [i for i, c in enumerate(job['calls']) if c.get('m') == 'dispatch'][-1]
        job['calls'][at]['a'] = {}
        ctx.sig = sig_of(job)
        ctx.replay = {'job': job}
        ra = ctx.run(job)
        if ra is None:
            return
        ja = Judge(job, ra, stats=ctx.stats)
        if not ja.status():
            return
        if any(f for f in ja.findings):
            return
        oa = ja.obs
        if any(p is None for p in oa.eprice.values()) or any(p is None for p in oa.fprice.values()):
            return
        # ---- limits chosen around the prices that came out
        sets = ja.ref.fcas_sets
        pairs = {}
        for s, d in sets.items():
            for q in d['rs']:
                pairs.setdefault(q, []).append(s)
        simple = all(len(v) == 1 for v in pairs.values())
        ep, fp = list(oa.eprice.values()), list(oa.fprice.values())
        pick = lambda x, up: x + (1 if up else -1) * rng.choice([0.01, 1.0, 50.0, 5000.0]) if rng.random() < 0.5 else x - (1 if up else -1) * rng.choice([0.01, 1.0, 30.0])
        ceil = pick(max(ep), True) if rng.random() < 0.7 else 1e9
        floor = pick(min(ep), False) if rng.random() < 0.5 else -1e9
        fceil = pick(max(fp), True) if fp and simple and rng.random() < 0.7 else 1e9
        if rng.random() < 0.05:
            ceil = max(ep)
        lim = {'energy_market_ceiling_price': ceil, 'energy_market_floor_price': floor, 'fcas_market_ceiling_price': fceil, 'allow_over_constrained_dispatch_re_run': True}
        jb = copy.deepcopy(job)
        jb['calls'][at]['a'] = lim
        # ---- a refused call first, now and then
        if rng.random() < 0.3:
            bad = dict(lim)
            drop = rng.choice([k for k in lim if k.endswith('price')])
            if rng.random() < 0.5:
                bad.pop(drop)
            else:
                bad[drop] = None
            jb['calls'].insert(at, {'m': 'dispatch', 'a': bad, 'may_fail': True})
        ctx.replay['rerun_job'] = jb
        rb = ctx.run(jb)
        if rb is None:
            return
        if len(jb['calls']) > len(job['calls']):
            ctx.count('missing_limit_calls')
            r = rb['calls'][at]
            if r.get('err') != 'ValueError':
                ctx.fail('refusal', 're-run without all price limits gave %s' % (r.get('err') or 'a dispatch'))
        atb = at + len(jb['calls']) - len(job['calls'])
        if 'err' in rb['calls'][atb]:
            ctx.fail('status', 'dispatch with re-run failed (%s: %s), without it succeeded' % (rb['calls'][atb]['err'], rb['calls'][atb]['msg']))
            return
        ob = Obs(rb['calls'][atb + 1])
        ctx.count('pairs_compared')
        for nm in ('disp', 'flow', 'loss'):
            A, B = getattr(oa, nm), getattr(ob, nm)
            if set(A) != set(B) or any(not same(A[k], B[k], 1e-5) for k in A):
                ctx.fail('dispatch', 're-run changed %s: %s' % (nm, [(k, A.get(k), B.get(k)) for k in A if not same(A[k], B.get(k), 1e-5)][:3]))
        for k, v in oa.viol.items():
            if isinstance(v, (int, float)) and not same(v, ob.viol.get(k), 1e-5):
                ctx.fail('violation', 're-run changed the violation degree of %s from %s to %s' % (k, v, ob.viol.get(k)))
        if not same(oa.obj, ob.obj, 1e-6):
            ctx.fail('objective', 're-run changed the objective value from %s to %s' % (oa.obj, ob.obj))
        # ---- what should have happened
        x = ja.xvec()
        viol, murky = [], False
        for i, c in enumerate(ja.ref.lp.cons):
            if c['group'] in ('generic', 'fcas'):
                l = ja.lhs(c, x)
                over = l - c['rhs'] if c['sense'] in ('<=', '=') else 0.0
                under = c['rhs'] - l if c['sense'] in ('>=', '=') else 0.0
                e = max(over, under, 0.0)
                if 2e-6 < e < 2e-3:
                    murky = True
                if e >= 2e-3:
                    viol.append((i, e if over > under else -e))
        near = lambda p, q: abs(p - q) < 1e-6 * max(1.0, abs(q))
        if any(near(p, ceil) for p in ep) and ceil != max(ep) or any(near(p, floor) for p in ep) or any(near(p, fceil) for p in fp):
            murky = True
        reached = max(ep) >= ceil or min(ep) <= floor or (fp and max(fp) >= fceil)
        if murky:
            ctx.count('murky')
            return
        trig = bool(viol) and reached
        ctx.nontrivial = True
        changed = any(not same(oa.eprice[k], ob.eprice.get(k), 1e-5) for k in oa.eprice) or any(not same(oa.fprice[k], ob.fprice.get(k), 1e-5) for k in oa.fprice)
        if not trig:
            ctx.count('not_triggered_%s_%s' % ('violated' if viol else 'unviolated', 'reached' if reached else 'unreached'))
            if changed:
                ctx.fail('price', 're-run changed prices although %s' % ('no generic or FCAS constraint is violated' if reached else 'no price reached its limit'))
            return
        ctx.count('triggered')
        if changed:
            ctx.count('triggered_and_changed')
        if ja.ref.seg or any(i != l for i, l in ja.ref.flow):
            ctx.count('triggered_not_priced')
            return
        lp = ja.ref.lp
        for i, e in viol:
            lp.cons[i]['rhs'] += e + (0.01 if e > 0 else -0.01)
        s = lp.solve()
        if s['status'] != 'optimal':
            ctx.count('reference_inconclusive')
            return
        ja.sol = s
        n = len(ja.findings)
        ja._price_check(list(lp.lb), list(lp.ub), s['obj'], seed, obs=ob)
        for f in ja.findings[n:]:
            ctx.fail('price', 'after the re-run: ' + f['msg'])


C13 = Rerun(
    ID='C13', CASES={'quick': 700, 'thorough': 15000},
    ASSUMPTIONS=['Prices after a triggered re-run are judged in markets without losses or directional links; executions where a violation or a distance to a price limit is below solver tolerance are not judged.'],
    PROFILES=[(4, ['fcas', 'generic', 'elastic', 'hostile', 'load', 'bdu']), (3, ['fcas', 'generic', 'elastic', 'hostile', 'inter', 'maxavail']), (1, ['generic', 'elastic', 'hostile', 'ramp', 'elastic:ramp']),
              (1, ['fcas', 'elastic', 'hostile']), (1, ['fcas', 'generic', 'elastic', 'hostile', 'inter', 'losses']), (0.5, ['fcas', 'generic', 'inter'])],
    RULE='an execution counts when the same market was dispatched with and without the re-run and it was clear whether the re-run should act')

CHECKS = [C13]
