"""Checks that generate one market, dispatch it, and let the Judge look at what came back."""
import copy, hashlib, json, random
from gen_market import Market
from monitor import Judge

GENERAL = ('objective', 'optimal', 'price', 'status')


def sig_of(job):
    return hashlib.sha256(json.dumps(job, sort_keys=True).encode()).hexdigest()[:16]


def choose(rng, profiles):
    w = [p[0] for p in profiles]
    return rng.choices(profiles, weights=w)[0][1]


def strip(job, feats):
    j = copy.deepcopy(job)
    j['calls'] = [c for c in j['calls'] if c.get('feat') not in feats]
    return j


def summary_sample(job, obs):
    return {'regions': job['regions'], 'calls': [c.get('m') for c in job['calls'] if c.get('m')],
            'objective': obs.obj if obs else None, 'energy_prices': obs.eprice if obs else None}


class MarketCheck:
    CASES = {'quick': 400, 'thorough': 8000}
    PROFILES = []                    # (weight, [features])
    REPORT = ()                      # monitor name prefixes reported by this check
    FOCUS = ()                       # call tags whose presence is what the property is about
    NONTRIVIAL = ('solved',)         # counters that make an execution non trivial
    RULE = ''
    PRICE = True

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def make(self, rng, seed):
        return Market(seed, choose(rng, self.PROFILES)).build()

    def judge(self, ctx, job, count=True, want=None):
        """execute and judge; returns (judge, findings) or None when not observed"""
        res = ctx.run(job)
        if res is None:
            return None
        j = Judge(job, res, stats=ctx.stats if count else {})
        want = want or self.REPORT
        if j.status():
            need = lambda *names: any(n.startswith(w) or w.startswith(n) for n in names for w in want)
            if need('offers'):
                j.offers()
            if need('group', 'degree'):
                j.groups()
            if need('inter'):
                j.interconnectors()
            if need('objective', 'optimal'):
                j.optimal()
            if need('price') and self.PRICE:
                j.prices()
            if need('summary'):
                j.summary()
            if need('availability'):
                j.availability()
        return j, [f for f in j.findings if f['monitor'].startswith(tuple(want))]

    def case(self, ctx, seed, idx):
        rng = random.Random(seed ^ 0x5eed)
        job = self.make(rng, seed)
        ctx.sig = sig_of(job)
        ctx.replay = {'job': job}
        r = self.judge(ctx, job)
        if r is None:
            return
        j, fs = r
        ctx.nontrivial = any(ctx.stats.get(k, 0) > 0 for k in self.NONTRIVIAL)
        ctx.sample = summary_sample(job, j.obs)
        if not fs:
            return
        general = [f for f in fs if f['monitor'].startswith(GENERAL)]
        if self.FOCUS and len(general) == len(fs):
            # only indirect symptoms: they belong to this property when they go away with the constraints it is about
            base = strip(job, self.FOCUS)
            b = self.judge(ctx, base, count=False, want=GENERAL)
            if b is None:
                ctx.inconclusive += 1
                return
            if b[1] or not self.base_ok(b[0]):
                ctx.count('attributed_elsewhere')
                return
            ctx.replay['baseline'] = base
        for f in fs:
            ctx.findings.append(dict(f))

    def base_ok(self, j):
        return True
