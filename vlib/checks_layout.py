"""C15: the same market presented differently."""
import copy, random
from mcheck import MarketCheck, sig_of, summary_sample, choose
from gen_market import Market
from monitor import Judge
from checks_market import BIG

DEFAULTS = {'unit_info': {'dispatch_type': 'generator', 'loss_factor': 1.0},
            'set_unit_volume_bids': {'dispatch_type': 'generator', 'service': 'energy'},
            'set_unit_price_bids': {'dispatch_type': 'generator', 'service': 'energy'},
            'set_unit_bid_capacity_constraints': {'dispatch_type': 'generator'},
            'set_unit_ramp_rate_constraints': {'dispatch_type': 'generator'},
            'set_fcas_requirements_constraints': {'type': '='},
            'set_interconnectors': {'link': None, 'generic_constraint_factor': 1, 'from_region_loss_factor': 1.0, 'to_region_loss_factor': 1.0},
            'set_interconnector_losses': {'link': None}}
INTS = {'generic_constraint_factor'}
WEIRD = ['1', '10', '100', '01', 'unit', 'region', 'A B', 'a', 'A', 'x' * 40, 'energy', 'raise_reg', 'NSW', 'é', 'nan', 'None', '0', '-1', '1.0', 'demand', 'F0', 'load', 'A_B', 'A-B', 'B_A', "Q'Q", 'U#1', ' lead', 'set']


def tables(job):
    yield 'unit_info', 'unit_info', job['unit_info']
    for c in job['calls']:
        for k, v in c.get('a', {}).items():
            if isinstance(v, dict) and 'cols' in v:
                yield c['m'], k, v


def shuffle_rows(rng, job):
    for _, _, t in tables(job):
        rng.shuffle(t['rows'])


def shuffle_cols(rng, job):
    for _, _, t in tables(job):
        p = list(range(len(t['cols'])))
        rng.shuffle(p)
        t['cols'] = [t['cols'][i] for i in p]
        t['rows'] = [[r[i] for i in p] for r in t['rows']]


def index(rng, job):
    for _, _, t in tables(job):
        n = len(t['rows'])
        k = rng.choice(['none', 'offset', 'rev', 'str', 'dup', 'perm', 'gap'])
        if k == 'offset':
            t['index'] = [i + 100 for i in range(n)]
        elif k == 'rev':
            t['index'] = list(range(n))[::-1]
        elif k == 'str':
            t['index'] = ['r%d' % (n - i) for i in range(n)]
        elif k == 'dup':
            t['index'] = [0] * n
        elif k == 'perm':
            t['index'] = rng.sample(range(n), n)
        elif k == 'gap':
            t['index'] = sorted(rng.sample(range(10 * n + 10), n))


def rename(rng, job, what):
    cols = {'unit': ['unit'], 'set': ['set'], 'inter': ['interconnector', 'link'], 'region': ['region', 'to_region', 'from_region']}[what]
    names = []
    for _, _, t in tables(job):
        for c in cols:
            if c in t['cols']:
                i = t['cols'].index(c)
                for r in t['rows']:
                    if r[i] not in names:
                        names.append(r[i])
    if what == 'region':
        for x in job['regions']:
            if x not in names:
                names.append(x)
    style = rng.choice(['weird', 'swap', 'number', 'prefix'])
    if style == 'swap':
        to = names[:]
        rng.shuffle(to)
    elif style == 'number':
        to = [str(i) for i in rng.sample(range(1000), len(names))]
    elif style == 'prefix':
        to = ['P' * (i + 1) for i in range(len(names))]
        rng.shuffle(to)
    else:
        to = rng.sample(WEIRD, min(len(names), len(WEIRD)))
        to += ['n%d' % i for i in range(len(names) - len(to))]
    m = dict(zip(names, to))
    for _, _, t in tables(job):
        for c in cols:
            if c in t['cols']:
                i = t['cols'].index(c)
                for r in t['rows']:
                    r[i] = m[r[i]]
    if what == 'region':
        job['regions'] = [m[x] for x in job['regions']]


def optional(rng, job):
    # dispatch_type is given in all of these tables or in none
    tied = [t for m, k, t in tables(job) if 'dispatch_type' in DEFAULTS.get(m, {}) and k not in ('violation_cost', 'scada_ramp_rates', 'fast_start_profiles')]
    if rng.random() < 0.6:
        if all('dispatch_type' not in t['cols'] for t in tied):
            for t in tied:
                t['cols'].append('dispatch_type')
                for r in t['rows']:
                    r.append('generator')
        elif all('dispatch_type' in t['cols'] and all(r[t['cols'].index('dispatch_type')] == 'generator' for r in t['rows']) for t in tied):
            for t in tied:
                i = t['cols'].index('dispatch_type')
                t['cols'].pop(i)
                for r in t['rows']:
                    r.pop(i)
    for m, k, t in list(tables(job)):
        if k == 'violation_cost' or k in ('scada_ramp_rates', 'fast_start_profiles'):
            continue
        for c, d in DEFAULTS.get(m, {}).items():
            if c == 'dispatch_type' or rng.random() < 0.4:
                continue
            if c in t['cols']:
                i = t['cols'].index(c)
                if all(r[i] == (d if d is not None else r[t['cols'].index('interconnector')]) for r in t['rows']):
                    t['cols'].pop(i)
                    for r in t['rows']:
                        r.pop(i)
                    t.get('types', {}).pop(c, None)
            else:
                for r in t['rows']:
                    r.append(d if d is not None else r[t['cols'].index('interconnector')])
                t['cols'].append(c)
                if c in INTS:
                    t.setdefault('types', {})[c] = 'int'


def zero_bands(rng, job):
    v = next((c for c in job['calls'] if c.get('m') == 'set_unit_volume_bids'), None)
    p = next((c for c in job['calls'] if c.get('m') == 'set_unit_price_bids'), None)
    if not v or not p:
        return
    v, p = v['a']['volume_bids'], p['a']['price_bids']
    bands = sorted({int(c) for c in v['cols'] if c.isdigit()} | {int(c) for c in p['cols'] if c.isdigit()})
    used = set()
    for b in bands:
        if str(b) in v['cols']:
            i = v['cols'].index(str(b))
            if any(r[i] and r[i] > 0 for r in v['rows']):
                used.add(b)
    for b in bands:
        if b not in used and b > 1 and rng.random() < 0.6:
            for t in (v, p):
                if str(b) in t['cols']:
                    i = t['cols'].index(str(b))
                    t['cols'].pop(i)
                    for r in t['rows']:
                        r.pop(i)
                    t.get('types', {}).pop(str(b), None)
    top = max(used) if used else 0
    free = [b for b in range(top + 1, 11) if str(b) not in v['cols'] and str(b) not in p['cols']]
    if free and rng.random() < 0.6 and not any(int(c) > top for c in p['cols'] if c.isdigit()):
        b = str(rng.choice(free))
        pc = [i for i, c in enumerate(p['cols']) if c.isdigit()]
        v['cols'].append(b)
        for r in v['rows']:
            r.append(0.0)
        for r in p['rows']:
            r.append(max(r[i] for i in pc if r[i] is not None) + 1.0)
        p['cols'].append(b)


def segments(rng, job):
    for c in job['calls']:
        if c.get('m') == 'set_interconnector_losses':
            t = c['a']['interpolation_break_points']
            i = t['cols'].index('loss_segment')
            vals = sorted({r[i] for r in t['rows']})
            off = rng.choice([0, 1, 50])
            step = rng.choice([1, 2, 7])
            m = {x: off + step * k for k, x in enumerate(vals)}
            for r in t['rows']:
                r[i] = m[r[i]]


def call_order(rng, job):
    body = [c for c in job['calls'] if c.get('m') not in (None, 'dispatch', 'make_constraints_elastic')]
    rest = [c for c in job['calls'] if c.get('m') in (None, 'dispatch', 'make_constraints_elastic')]
    before = {'set_unit_price_bids': ['set_unit_volume_bids'], 'set_interconnector_losses': ['set_interconnectors'],
              'set_joint_ramping_constraints_reg': ['set_unit_volume_bids'], 'set_tie_break_constraints': ['set_unit_volume_bids', 'set_unit_price_bids']}
    rng.shuffle(body)
    out = [c for c in body if c['m'] == 'set_unit_volume_bids']     # everything else may need to know the units' bids
    todo = [c for c in body if c['m'] != 'set_unit_volume_bids']
    while todo:
        for c in todo:
            if all(x['m'] not in before.get(c['m'], []) for x in todo):
                out.append(c)
                todo.remove(c)
                break
    job['calls'] = out + rest


TRANSFORMS = {'rows': shuffle_rows, 'cols': shuffle_cols, 'index': index, 'unit': lambda r, j: rename(r, j, 'unit'), 'set': lambda r, j: rename(r, j, 'set'),
              'inter': lambda r, j: rename(r, j, 'inter'), 'region': lambda r, j: rename(r, j, 'region'), 'optional': optional, 'bands': zero_bands,
              'segments': segments, 'order': call_order}


class Layout(MarketCheck):
    def full(self, job, res, stats):
        j = Judge(job, res, stats=stats)
        if j.status():
            j.offers(); j.groups(); j.interconnectors(); j.optimal(); j.summary(); j.availability()
            j.prices()
        return j

    def case(self, ctx, seed, idx):
        rng = random.Random(seed ^ 0xC15)
        base = Market(seed, choose(rng, self.PROFILES)).build()
        job = copy.deepcopy(base)
        names = sorted(TRANSFORMS)
        ks = rng.sample(names, rng.choice([1, 1, 2, 3, len(names)]))
        for k in ks:
            TRANSFORMS[k](rng, job)
            ctx.count('transform:' + k)
        ctx.sig = sig_of(job)
        ctx.replay = {'job': job, 'base': base, 'transforms': ks}
        res = ctx.run(job)
        if res is None:
            return
        j = self.full(job, res, ctx.stats)
        ctx.sample = dict(summary_sample(job, j.obs), transforms=ks)
        ctx.nontrivial = j.obs is not None
        if not j.findings:
            return
        b = ctx.run(base)
        if b is None:
            return
        if self.full(base, b, {}).findings:
            ctx.count('attributed_elsewhere')
            return
        for f in j.findings:
            ctx.fail(f['monitor'], 'after %s: %s' % ('+'.join(ks), f['msg']))


C15 = Layout(
    ID='C15', CASES={'quick': 900, 'thorough': 18000},
    ASSUMPTIONS=['Each transformed market is judged against the reference model; a finding counts only when the untransformed market passes the same monitors.',
                 'Regions are renamed as well as units, sets and interconnectors.'],
    PROFILES=[(3, BIG), (2, ['load', 'bdu', 'lf', 'capacity', 'ramp', 'scada', 'uigf']), (2, ['fcas', 'reg', 'maxavail', 'jointcap', 'engreg', 'jointramp', 'load', 'bdu']),
              (3, ['inter', 'losses', 'links', 'transloss', 'uneven', 'generic', 'load']), (2, ['generic', 'fcas', 'load', 'bdu', 'inter', 'elastic', 'hostile']),
              (1, ['faststart', 'fsprofile', 'ramp', 'scada', 'load']), (1, ['ties', 'tiebreak', 'load', 'lf']), (1, []), (1, ['inter', 'losses'])],
    RULE='an execution counts when the transformed market was dispatched and judged')

CHECKS = [C15]
