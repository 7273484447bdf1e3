"""C12: tie breaking."""
import random
import numpy as np
from mcheck import MarketCheck, strip, GENERAL, sig_of, summary_sample, choose
from gen_market import Market
from monitor import Judge
from refmodel import Ref, build_state


def min_unfairness(job, at, obs=None, eps=2e-5, slack=2e-3):
    """least sum over tied pairs of the difference in fraction dispatched, among dispatches of least cost
    (optionally with every unit total held at what was reported)"""
    st = build_state(job, at + 1)
    tie = st.g.pop('set_tie_break_constraints', None)
    plain = Ref(st)
    s0 = plain.solve()
    if s0['status'] != 'optimal':
        return None
    st.g['set_tie_break_constraints'] = tie
    ref = Ref(st)
    lp = ref.lp
    cost0 = list(lp.cost)
    dev = [v for c in lp.cons if c['group'] == 'tie_break' for v, _ in c['def']]
    ds = set(dev)
    lp.con('_cost', 'cost', {i: c for i, c in enumerate(cost0) if c and i not in ds}, '<=', s0['obj'] + slack)
    if obs is not None:
        for k, bands in ref.bid.items():
            d = obs.disp.get(k, 0.0)
            co = {b[0]: 1.0 for b in bands}
            lp.con('_fix', k, co, '<=', d + eps)
            lp.con('_fix', k, co, '>=', d - eps)
    lp.cost = [1.0 if i in ds else 0.0 for i in range(len(cost0))]
    s = lp.solve()
    if s['status'] != 'optimal':
        return None if obs is None else float('inf')
    return s['obj'], len(ref.tie_pairs)


class Tie(MarketCheck):
    def make(self, rng, seed):
        job = super().make(rng, seed)
        for c in job['calls']:
            if c.get('m') == 'set_tie_break_constraints':
                c['a']['cost'] = rng.choice([1e-3, 1e-3, 0.01, 0.1, 1.0])
        return job

    def case(self, ctx, seed, idx):
        super().case(ctx, seed, idx)
        if ctx.findings or ctx.inconclusive:
            return
        job = ctx.replay['job']
        cost = next(c['a']['cost'] for c in job['calls'] if c.get('m') == 'set_tie_break_constraints')
        at = [i for i, c in enumerate(job['calls']) if c.get('m') == 'dispatch'][-1]
        res = ctx.run(job)
        if res is None:
            return
        j = Judge(job, res, stats={})
        ctx.nontrivial = False
        if not j.status():
            return
        pairs = len(j.ref.tie_pairs)
        ctx.count('tied_pairs', pairs)
        if pairs == 0:
            ctx.count('markets_without_ties')
            return
        ctx.nontrivial = True
        if cost > 2e-3:
            return          # large penalties are judged through the objective
        best = min_unfairness(job, at)
        got = min_unfairness(job, at, j.obs)
        if best is None or got is None:
            ctx.count('reference_inconclusive')
            return
        if got == float('inf'):
            return          # the dispatch is not of least cost: the penalty was worth more (reported through the objective)
        ctx.count('fairness_compared')
        if got[0] > best[0] + 0.01 * pairs + 0.01 and got[0] > best[0] * 1.05 + 0.02:
            ctx.fail('fairness', 'tied bids are %.4f away from pro rata in total, %.4f is attainable at the same cost (%d tied pairs)' % (got[0], best[0], pairs))


C12 = Tie(
    ID='C12', CASES={'quick': 1300, 'thorough': 20000}, PRICE=False,
    ASSUMPTIONS=['Fairness is judged for tie break costs of 1e-3 as least total deviation from pro rata among least cost dispatches; larger tie break costs through the objective value.'],
    PROFILES=[(4, ['ties', 'tiebreak', 'load', 'bdu', 'lf']), (2, ['ties', 'tiebreak', 'inter', 'load', 'lf']), (2, ['ties', 'tiebreak', 'capacity', 'ramp', 'load']),
              (1, ['ties', 'tiebreak', 'fcas', 'bdu', 'load']), (1, ['tiebreak', 'load', 'lf']), (2, ['ties', 'tiebreak', 'one_region'])],
    REPORT=('objective', 'optimal', 'status'), FOCUS=('tiebreak',), NONTRIVIAL=('tied_pairs',),
    RULE='an execution counts when the market held at least one pair of tied bids and was dispatched')

CHECKS = [C12]
