"""C26: chains of dispatch intervals joined by nempy.time_sequential."""
import hashlib, json, random
from refmodel import composite_rise, composite_fall

TOL = 1e-4


def q(rng, lo, hi):
    return round(rng.uniform(lo, hi), rng.choice([0, 1, 3]))


class Chain:
    ID = 'C26'
    CASES = {'quick': 700, 'thorough': 12000}
    RULE = ('one evaluation = one chain of 2-7 intervals over one fleet of generators, loads and bidirectional units: each interval has its own bids, demand, ramp rates and '
            'length, its initial outputs come from nempy.time_sequential applied to the previous dispatch (or to a historical seed); the monitor compares every ramp table with '
            'the previous targets and every pair of successive targets with the ramp window; non-trivial = some unit moved by a full ramp or a unit was absent for an interval; '
            'distinct = hash of the chain')
    ASSUMPTIONS = ['demand and requirements are elastic, so that every interval solves; ramp limits are hard', 'load side dispatch of a bidirectional unit counts negative']
    MIN_EVENTS = {'tables': 500, 'unit_steps': 3000, 'at_limit': 100, 'bidirectional_steps': 200}

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        regions = ['NSW', 'VIC'][:rng.choice([1, 1, 2])]
        typed = rng.random() < .75
        fleet = []
        for i in range(rng.randint(1, 7)):
            k = rng.choice(['generator'] * 4 + (['load', 'load', 'bdu', 'bdu'] if typed else []))
            fleet.append({'unit': rng.choice('ABCDEFGHIJ') + str(i), 'kind': k, 'region': rng.choice(regions), 'cap': rng.choice([20.0, 100.0, 350.0])})
        sides = lambda u: ['generator', 'load'] if u['kind'] == 'bdu' else [u['kind']]
        cols = ['unit', 'dispatch_type', 'region'] if typed else ['unit', 'region']
        ui = [[u['unit'], s, u['region']] if typed else [u['unit'], u['region']] for u in fleet for s in sides(u)]
        fcas = typed and rng.random() < .5
        with_init = rng.random() < .3       # the ramp table already carries telemetered initial outputs
        steps = []
        names = {u['unit']: u for u in fleet}
        for t in range(rng.randint(2, 7)):
            here = [u for u in fleet if t == 0 or rng.random() < .9] or fleet
            vb, pb, rr = [], [], []
            for u in here:
                order = sides(u)
                if rng.random() < .3:
                    order = order[::-1]
                for s in order:
                    key = [u['unit']] + ([s] if typed else [])
                    n = 3
                    cut = sorted([0.0, q(rng, 0, u['cap']), q(rng, 0, u['cap']), u['cap']])      # bands always sum to the capacity: a unit can stay where it was
                    vs = [round(b - a, 6) for a, b in zip(cut, cut[1:])]
                    ps = sorted(q(rng, -50, 300) for _ in range(n))
                    vb.append(key + (['energy'] if fcas else []) + vs)
                    pb.append(key + (['energy'] if fcas else []) + ps)
                    if fcas and rng.random() < .4:
                        svc = rng.choice(['raise_6s', 'lower_60s'])
                        vb.append(key + [svc] + [q(rng, 0, 10) for _ in range(n)])
                        pb.append(key + [svc] + sorted(q(rng, 0, 20) for _ in range(n)))
            for u in fleet if rng.random() < .5 else here:      # ramp rates are also given for units without bids
                for s in sides(u):
                    key = [u['unit']] + ([s] if typed else [])
                    rate = lambda: rng.choice([0.0, 60.0, 120.0, q(rng, 10, 900), 3000.0])
                    rr.append(key + [rate(), rate()])
            for x in (vb, rr):
                if rng.random() < .4:
                    rng.shuffle(x)
            kc = ['unit'] + (['dispatch_type'] if typed else [])
            bc = kc + (['service'] if fcas else []) + ['1', '2', '3']
            if not any(r[0] in {v[0] for v in vb} for r in rr):
                continue
            rc, rows = kc + ['ramp_up_rate', 'ramp_down_rate'], rr
            if with_init:
                rc, rows = rc + ['initial_output'], [r + [q(rng, 0, 50)] for r in rr]
            st = {'volume': {'cols': bc, 'rows': vb}, 'price': {'cols': bc, 'rows': pb}, 'ramp': {'cols': rc, 'rows': rows},
                  'demand': {'cols': ['region', 'demand'], 'rows': [[r, q(rng, 0, sum(u['cap'] for u in fleet))] for r in regions]},
                  'interval': rng.choice([5, 5, 5, 30, 15]), 'drop_service': (not fcas) and rng.random() < .3}
            if fcas:
                st['fcas'] = {'cols': ['set', 'service', 'region', 'volume'], 'rows': [['S', 'raise_6s', regions[0], q(rng, 0, 20)]]}
            steps.append(st)
        if not steps:
            return
        seedtab = None
        if rng.random() < .7:
            hist = [[u['unit'], q(rng, -u['cap'], u['cap']) if u['kind'] == 'bdu' else q(rng, 0, u['cap'])] for u in fleet if rng.random() < .9]
            hist += [['ZZ', 12.5]] if rng.random() < .3 else []
            rng.shuffle(hist)
            if hist:
                seedtab = {'cols': ['unit', 'initial_output'], 'rows': hist}
        job = {'kind': 'chain', 'regions': regions, 'unit_info': {'cols': cols, 'rows': ui}, 'seed': seedtab, 'steps': steps}
        ctx.sig = hashlib.sha256(json.dumps(job, sort_keys=True).encode()).hexdigest()[:16]
        ctx.replay = {'job': job}
        r = ctx.run(job)
        if r is None:
            return
        prev, moved, absent = None, False, False
        for t, (st, o) in enumerate(zip(steps, r['steps'])):
            rates = [dict(zip(st['ramp']['cols'], x)) for x in st['ramp']['rows']]
            if 'ramp' in o:
                if not o['ramp'].get('ok'):
                    ctx.fail('ramp table', 'interval %d: building the ramp table raised %s: %s' % (t, o['ramp'].get('err'), o['ramp'].get('msg')))
                    break
                if o.get('inputs_changed'):
                    ctx.fail('ramp table', 'interval %d: the caller\'s tables were changed' % t)
                init = dict(map(tuple, seedtab['rows'])) if t == 0 else prev
                exp = []
                for x in rates:
                    if t == 0 and x['unit'] not in init:
                        continue
                    e = dict(x, initial_output=init.get(x['unit'], 0.0))
                    exp.append(e)
                    if t and x['unit'] not in init:
                        absent = True
                        ctx.count('absent_units')
                got = [dict(zip(o['ramp']['ret']['cols'], x)) for x in o['ramp']['ret']['rows']]
                kc = ['unit'] + (['dispatch_type'] if typed else [])
                key = lambda x: tuple(str(x.get(c)) for c in kc)
                ctx.count('tables')
                if sorted(map(key, exp)) != sorted(map(key, got)):
                    ctx.fail('ramp table', 'interval %d: rows for %s, expected %s' % (t, sorted(map(key, got)), sorted(map(key, exp))))
                    break
                gm = {key(x): x for x in got}
                bad = False
                for e in exp:
                    for c in ('initial_output', 'ramp_up_rate', 'ramp_down_rate'):
                        v = gm[key(e)].get(c)
                        ctx.count('values_compared')
                        if v is None or abs(v - e[c]) > 1e-6:
                            ctx.fail('ramp table', 'interval %d: %s of %s is %r, expected %r' % (t, c, key(e), v, e[c]))
                            bad = True
                extra = set(o['ramp']['ret']['cols']) - set(kc) - {'initial_output', 'ramp_up_rate', 'ramp_down_rate'}
                if extra:
                    ctx.fail('ramp table', 'interval %d: unexpected columns %s, which the market refuses' % (t, sorted(extra)))
                    bad = True
                if bad:
                    break
            if not o['run'].get('ok'):
                ctx.fail('dispatch', 'interval %d could not be dispatched with the chained ramp table: %s: %s' % (t, o['run'].get('err'), o['run'].get('msg')))
                break
            rows = [dict(zip(o['dispatch']['cols'], x)) for x in o['dispatch']['rows']]
            now = {}
            for x in rows:
                if x.get('service', 'energy') != 'energy':
                    continue
                u = names[x['unit']]
                sgn = -1.0 if u['kind'] == 'bdu' and x['dispatch_type'] == 'load' else 1.0
                now[x['unit']] = now.get(x['unit'], 0.0) + sgn * x['dispatch']
            start = None if 'ramp' not in o else (dict(map(tuple, seedtab['rows'])) if t == 0 else prev)
            if start is not None:
                h = st['interval'] / 60.0
                rm = {}
                for x in rates:
                    rm.setdefault(x['unit'], {})[x.get('dispatch_type', 'generator')] = x
                for u, e in now.items():
                    if u not in rm or (t == 0 and u not in start):
                        continue
                    x0 = start.get(u, 0.0)
                    if names[u]['kind'] == 'bdu':
                        g, l = rm[u]['generator'], rm[u]['load']
                        up = composite_rise(x0, l['ramp_down_rate'], g['ramp_up_rate'], h)
                        dn = composite_fall(x0, g['ramp_down_rate'], l['ramp_up_rate'], h)
                        ctx.count('bidirectional_steps')
                    else:
                        x = rm[u][names[u]['kind']]
                        up, dn = x['ramp_up_rate'] * h, x['ramp_down_rate'] * h
                    ctx.count('unit_steps')
                    if e > x0 + up + TOL or e < x0 - dn - TOL:
                        ctx.fail('chain', 'interval %d: %s moved from %s to %s, the ramp allows %s to %s' % (t, u, x0, e, x0 - dn, x0 + up))
                    elif (abs(e - x0 - up) < TOL and up > 0) or (abs(e - x0 + dn) < TOL and dn > 0):
                        ctx.count('at_limit')
                        moved = True
            ctx.count('intervals')
            prev = now
        ctx.nontrivial = moved or absent
        ctx.sample = {'fleet': [(u['unit'], u['kind']) for u in fleet], 'intervals': len(steps), 'seed': seedtab and seedtab['rows'][:3]}


CHECKS = [Chain()]
