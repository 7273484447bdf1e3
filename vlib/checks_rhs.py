"""C24: right hand side expressions of generic constraints, evaluated on synthetic interval files.

The oracle is an independent evaluator of the postfix language of AEMO's Constraint Implementation Guidelines, appendix A
(docs/pdfs): explicit stack, group terms found by the term id of their super term, measured values looked up in the record the
file was written from.  The calculator is a stateful object: the monitor replays a history of evaluations and overrides.
"""
import copy, datetime as dt, hashlib, json, random
import gen_interval as G
from gen_market import table
from checks_xml import rand_time

BIN = ['ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN']
UN = ['STEP', 'POW2', 'POW3', 'SQRT', 'ABS', 'NEG']
SCADA = 'ASIWR'


class Undefined(Exception):
    """the expression is not defined, or is ill conditioned, on these values"""


def un(op, v):
    if op == 'STEP':
        if 0 < abs(v) < 1e-7:
            raise Undefined()
        return 1.0 if v > 0 else 0.0
    if op == 'POW2':
        return v * v
    if op == 'POW3':
        return v * v * v
    if op == 'SQRT':
        if v < 0:
            raise Undefined()
        return v ** 0.5
    if op == 'ABS':
        return abs(v)
    return -v


def bi(op, a, b):
    if op == 'ADD':
        return a + b
    if op == 'SUB':
        return a - b
    if op == 'MUL':
        return a * b
    if op == 'DIV':
        if abs(b) < 1e-3:
            raise Undefined()
        return a / b
    return max(a, b) if op == 'MAX' else min(a, b)


def evaluate(terms, value, seen=None):
    """value of a term list; value(term) gives the measured value"""
    def run(group):
        s, flag = [0.0], False
        for t in terms:
            if t.get('group') != group:
                continue
            ty, op, f = t['type'], t.get('op'), float(t['factor'])
            if seen is not None:
                seen[ty + ':' + (op or '-')] = seen.get(ty + ':' + (op or '-'), 0) + 1
            if ty == 'U':
                if op is None:
                    s[-1] *= f
                elif op in UN:
                    s[-1] = un(op, s[-1]) * f
                elif op == 'DUP':
                    s.append(s[-1] * f)
                elif len(s) < 2:
                    raise Undefined()
                elif op in BIN:
                    b = s.pop()
                    s[-1] = bi(op, s[-1], b) * f
                elif op == 'EXCH':
                    s[-1], s[-2] = s[-2] * f, s[-1]
                elif op == 'RSD':
                    s.append(s.pop(0) * f)
                elif op == 'RSU':
                    s.insert(0, s.pop())
                    s[-1] *= f
                elif op == 'POP':
                    x = s.pop()
                    if 0 < abs(x) < 1e-7:
                        raise Undefined()
                    flag = x <= 0
                elif op == 'EXLEZ':
                    if flag:
                        s[-1], s[-2] = s[-2] * f, s[-1]
                    elif f != 1:
                        raise Undefined()      # the guidelines and the code differ on the factor when nothing is exchanged
                    flag = False
            elif ty == 'C':                    # the factor is the constant
                if op is None:
                    s[-1] += f
                elif op == 'PUSH':
                    s.append(f)
                elif op in BIN:
                    s[-1] = bi(op, s[-1], f)
                else:
                    s[-1] += un(op, f)
            else:
                v = run(t['id']) if ty == 'G' else value(t)
                if op is None:
                    s[-1] += f * v
                elif op in UN:
                    s[-1] += un(op, v) * f
                elif op in BIN:
                    s[-1] = bi(op, s[-1], v) * f
                elif op == 'PUSH':
                    s.append(v * f)
                elif op == 'POP':
                    if 0 < abs(v) < 1e-7:
                        raise Undefined()
                    flag = v <= 0
            if abs(s[-1]) > 1e11:
                raise Undefined()
        return s[-1]
    return run(None)


def factor(rng):
    return rng.choice(['1', '1', '1', '-1', '2', '0.5', '1.0', repr(round(rng.uniform(-3, 3), 3))])


def gen_items(rng, pick, depth=0, depths=3):
    out, h, popped = [], 1, False
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 8])):
        k, f = rng.random(), factor(rng)
        if k < .5:
            op = rng.choice([None] * 6 + BIN + UN + ['PUSH'] * 3 + ['POP'])
            ty, sid, dflt = pick()
            out.append({'type': ty, 'op': op, 'factor': f, 'sid': sid, 'default': dflt})
            h += op == 'PUSH'
            popped |= op == 'POP'
        elif k < .53 and h > 1:
            # the flag is set by a popped value of zero as well
            out.append({'type': 'C', 'op': 'PUSH', 'factor': rng.choice(['0', '0', '0.0', '1', '-1']), 'sid': 'Constant', 'default': '1'})
            out.append({'type': 'U', 'op': 'POP', 'factor': '1', 'sid': 'Stack', 'default': '0'})
            out.append({'type': 'U', 'op': 'EXLEZ', 'factor': '1', 'sid': 'Stack', 'default': '0'})
            popped = False
        elif k < .62:
            op = rng.choice([None, None, 'PUSH', 'PUSH', 'MAX', 'MIN', 'ADD', 'SUB', 'MUL', 'DIV', 'POW2', 'ABS', 'NEG'])
            out.append({'type': 'C', 'op': op, 'factor': f, 'sid': rng.choice(['Constant', 'MARGIN', 'K 1']), 'default': '1'})
            h += op == 'PUSH'
        elif k < .84:
            ops = [None, 'DUP'] + UN
            if h > 1:
                ops += BIN + ['EXCH', 'RSD', 'RSU', 'POP', 'EXCH', 'RSD', 'RSU']
                if popped:
                    ops += ['EXLEZ'] * 8
            op = rng.choice(ops)
            h += op == 'DUP'
            h -= op in BIN or op == 'POP'
            if op == 'POP':
                popped = True
            if op == 'EXLEZ':
                popped = False
            out.append({'type': 'U', 'op': op, 'factor': f, 'sid': rng.choice(['', 'Stack', 'HEADROOM']), 'default': '0'})
        elif depth < depths:
            op = rng.choice([None] * 4 + BIN + UN + ['PUSH'])
            h += op == 'PUSH'
            out.append(('G', {'type': 'G', 'op': op, 'factor': f, 'sid': rng.choice(['GROUP', 'HEADROOM']), 'default': '0'},
                        gen_items(rng, pick, depth + 1, depths), rng.choice(['pre', 'post'])))
    return out or [{'type': 'C', 'op': None, 'factor': factor(rng), 'sid': 'Constant', 'default': '1'}]


def depth_of(items):
    return max([0] + [1 + depth_of(i[2]) for i in items if isinstance(i, tuple)])


def flatten(items, rng):
    out = []

    def walk(its, g):
        for it in its:
            if isinstance(it, tuple):
                t = dict(it[1], _g=g)
                if it[3] == 'pre':
                    out.append(t)
                walk(it[2], t)
                if it[3] == 'post':
                    out.append(t)
            else:
                out.append(dict(it, _g=g))
    walk(items, None)
    n = rng.choice([0, 0, 10])
    for i, t in enumerate(out):
        t['id'] = str(n + i + 1)
    for t in out:
        g = t.pop('_g')
        if g is not None:
            t['group'] = g['id']
    return out


def xml_term(t):
    a = {'TermID': t['id']}
    if 'group' in t:
        a['GroupTerm'] = t['group']
    a['Multiplier'] = t['factor']
    if t.get('op'):
        a['Operation'] = t['op']
    a['SpdID'] = t['sid']
    a['SpdType'] = t['type']
    a['Default'] = t['default']
    return a


class World:
    """measured values of one record and their overrides"""

    def __init__(self, rec):
        self.scada = {}
        for s in rec['scada']:
            d = self.scada.setdefault(s['type'], {})
            for v in s['good'] + s.get('bad', []):
                d.setdefault(v['SpdID'], []).append(float(v['Value']))
        tr = G.truth(rec)
        self.t = {r['DUID']: r['INITIALMW'] for r in tr['get_unit_initial_conditions']}
        self.e = {k: float(v) for k, v in rec['entered']}
        self.m = {i['id']: float(dict(i['offers'])[i['from']]) for i in rec['inters'] if i['mnsp']}
        self.n = {i['id']: float(dict(i['offers'])[i['to']]) for i in rec['inters'] if i['mnsp']}
        self.eqs = {g['id']: g['tree'] for g in rec['equations'] if g['tree']}
        self.missing = 0

    def slot(self, ty):
        return {'T': self.t, 'E': self.e, 'M': self.m, 'N': self.n}.get(ty)

    def value(self, t):
        ty, sid = t['type'], t['sid']
        if ty in SCADA:
            v = self.scada.get(ty, {}).get(sid)
            v = sum(v) if v else None
        elif ty == 'X':
            v = evaluate(self.eqs[sid], self.value) if sid in self.eqs else None
        else:
            v = self.slot(ty).get(sid)
        if v is None:
            self.missing += 1
            return float(t['default'])
        return v

    def override(self, sid, ty, v):
        """True when the override is to be accepted"""
        if ty in 'CRX':
            return False
        if ty in SCADA:
            c = self.scada.get(ty, {}).get(sid)
            if not c or len(c) > 1:
                return False
            c[0] = v
            return True
        d = self.slot(ty)
        if d is None or sid not in d:
            return False
        d[sid] = v
        return True


def build(rng):
    rec = G.random_record(rng, rand_time(rng))
    ids = ['MW_A', 'MW_B', 'LINE 1', 'X&Y', 'BL_FREQ_ONSTATUS', 'NSW1', 'INERTIA<']
    types = list('ASIWR')
    rng.shuffle(types)
    scada = []
    for ty in types[:rng.choice([2, 4, 5, 5])]:
        def val(sid):
            d = {'SpdID': sid, 'Value': rng.choice(['0', '1', G.num(rng)]), 'EMS_ID': rng.choice(['INER', 'MW']), 'EMS_Good': 'True', 'Can_Use_Value': 'True'}
            return d
        good = [val(s) for s in rng.sample(ids, rng.randint(1, 4))]
        if rng.random() < .4:
            good += [val(rng.choice(good)['SpdID']) for _ in range(rng.randint(1, 2))]
        rng.shuffle(good)
        s = {'type': ty, 'good': good}
        if rng.random() < .35:
            s['bad'] = [val(s_) for s_ in rng.sample(ids, rng.randint(1, 2))]
        scada.append(s)
    rec['scada'] = scada
    rec['entered'] = [(s, G.num(rng)) for s in rng.sample(ids, rng.randint(2, 4))]
    w = {}
    for s in scada:
        w[s['type']] = [v['SpdID'] for v in s['good'] + s.get('bad', [])]
    w['T'] = [t['id'] for t in rec['traders']]
    w['E'] = [k for k, _ in rec['entered']]
    mn = [i['id'] for i in rec['inters'] if i['mnsp']]
    if mn:
        w['M'] = w['N'] = mn
    miss = rng.choice([0, 0, 0.05, 0.3])
    dfl = lambda: rng.choice(['0', '1', '-5', '100.5', '9999'])

    def pick(x=()):
        if rng.random() < miss:
            ty = rng.choice('ASIWRTEMN' + ('X' if x else ''))
            return ty, rng.choice(['NOT_THERE', rng.choice(ids)]), dfl()
        ty = rng.choice(sorted(w) + (['X', 'X'] if x else []))
        return ty, rng.choice(list(x) if ty == 'X' else w[ty]), dfl()
    eqs = []
    for i in range(rng.randint(2, 4)):
        # an equation's id may coincide with the id of a measurement
        nm = rng.choice(['EQ%d' % i, ids[i]]) if rng.random() < .8 else 'EQ%d' % i
        tree = flatten(gen_items(rng, pick, depths=rng.choice([0, 1, 3])), rng) if rng.random() < .9 else []
        eqs.append({'id': nm, 'tree': tree, 'terms': [xml_term(t) for t in tree]})
    rec['equations'] = eqs
    xs = [e['id'] for e in eqs]
    trees, nest = {}, 0
    for c in rec['constraints']:
        if rng.random() < .85 or not trees:
            items = gen_items(rng, lambda: pick(xs), depths=rng.choice([0, 1, 3]))
            nest = max(nest, depth_of(items))
            trees[c['id']] = flatten(items, rng)
            c['terms'] = [xml_term(t) for t in trees[c['id']]]
    return rec, trees, nest


def depends(trees, eqs, sid, ty):
    def uses(tree):
        return any(t['sid'] == sid and t['type'] == ty for t in tree)
    geq = {e['id'] for e in eqs if uses(e['tree'])}
    return [c for c, tree in trees.items() if uses(tree) or any(t['type'] == 'X' and t['sid'] in geq for t in tree)]


class Rhs:
    ID = 'C24'
    CASES = {'quick': 10000, 'thorough': 60000}
    RULE = ('one evaluation = one synthetic interval file with random well formed expressions (all operations, nested groups before or after their super term, functions, '
            'missing data) loaded into one calculator, then a random history of single and list evaluations, overrides, refused overrides and dependant queries, every returned value '
            'compared with an independent evaluator; non-trivial = an override was applied or a group was nested; distinct = hash of the file')
    ASSUMPTIONS = ['the language is that of the Constraint Implementation Guidelines appendix A; a constant term used with an operation is its factor, as the code documents',
                   'functions do not reference functions and branch terms do not occur, as the guidelines and the documentation say',
                   'the factor of EXLEZ when nothing is exchanged, division by values below 1e-3 and roots of negatives are not judged']
    MIN_EVENTS = {'values_compared': 5000, 'overrides': 1000, 'dependant_queries': 1000}

    def case(self, ctx, seed, idx):
        rng = random.Random(seed)
        rec, trees, nest = build(rng)
        text = G.to_xml(rec, rng)
        w = World(rec)
        names = list(trees)
        pool = sorted({(t['sid'], t['type']) for tr in list(trees.values()) + [e['tree'] for e in rec['equations']] for t in tr if t['type'] not in 'UGCX'})
        ops, exp, seen, touched = [], [], {}, False

        def ev(c):
            try:
                return evaluate(trees[c], w.value, seen)
            except Undefined:
                return None
        for _ in range(rng.randint(3, 9)):
            k = rng.random()
            if k < .3:
                c = rng.choice(names)
                ops.append({'op': 'one', 'id': c})
                exp.append([ev(c)])
            elif k < .6:
                cs = [rng.choice(names) for _ in range(rng.randint(1, 3))] if rng.random() < .3 else names
                cs = [(c, ev(c)) for c in cs]
                cs = [(c, v) for c, v in cs if v is not None]        # a table with an undefined entry is not judged
                if cs:
                    ops.append({'op': 'many', 'ids': [c for c, v in cs]})
                    exp.append([v for c, v in cs])
            elif k < .85:
                sid, ty = rng.choice(pool) if pool and rng.random() < .85 else (rng.choice(['NOT_THERE', 'NSW1', 'MW_A', rec['traders'][0]['id']]), rng.choice('ASIWRTEMNCX'))
                v = rng.choice(['0', '1', G.num(rng)])
                ok = w.override(sid, ty, float(v))
                touched |= ok
                ops.append({'op': 'set', 'id': sid, 'type': ty, 'value': v if rng.random() < .6 else float(v)})
                exp.append(ok)
            else:
                sid, ty = rng.choice(pool) if pool and rng.random() < .9 else ('NOT_THERE', rng.choice('ASTE'))
                ops.append({'op': 'deps', 'id': sid, 'type': ty})
                exp.append(depends(trees, rec['equations'], sid, ty))
        cs = [(c, ev(c)) for c in names]
        cs = [(c, v) for c, v in cs if v is not None]
        if cs:
            ops.append({'op': 'many', 'ids': [c for c, v in cs]})
            exp.append([v for c, v in cs])
        if cs and rng.random() < 0.5:
            # the recomputed values replace those of the named sets in a constraint table, and nothing else changes
            col = rng.choice(['rhs', 'volume'])
            pick = rng.sample(cs, rng.randint(0 if rng.random() < .2 else 1, len(cs)))
            sets = names + ['F_OTHER', 'NOT_RECOMPUTED']
            rows = [[rng.choice(sets), rng.choice(['>=', '<=', '=']), rng.choice(['raise_6s', 'lower_reg']), rng.choice(['NSW1', 'VIC1']), float(G.num(rng))]
                    for _ in range(rng.randint(1, 8))]
            cols = ['set', 'type', 'service', 'region', col]
            if rng.random() < .4:
                cols, rows = ['set', col, 'type'], [[x[0], x[4], x[1]] for x in rows]
            ops.append({'op': 'swap', 'ids': [c for c, v in pick], 'table': table(cols, rows, {col: 'float'})})
            exp.append(dict(pick))
        if touched and cs:
            # overrides belong to the calculator they were made on
            w0, cs = World(rec), []
            for c in names:
                try:
                    cs.append((c, evaluate(trees[c], w0.value, {})))
                except Undefined:
                    pass
            cs = [(c, v) for c, v in cs if v is not None]
            if cs:
                ops.append({'op': 'fresh', 'ids': [c for c, v in cs]})
                exp.append([v for c, v in cs])
        sol = {s['ConstraintID']: s['RHS'] for s in rec['constraint_solutions'] if s['Intervention'] == '0'}
        for c in names[:2]:
            if c in sol:
                ops.append({'op': 'nemde', 'id': c})
                exp.append(float(sol[c]))
        job = {'kind': 'rhs', 'interval': rec['interval'], 'file': G.interval_file(dt.datetime.strptime(rec['interval'], '%Y/%m/%d %H:%M:%S'), False), 'text': text, 'ops': ops}
        ctx.replay = {'job': job, 'expected': exp}
        r = ctx.run(job)
        if r is None:
            return
        if not r['res'][0].get('ok'):
            ctx.fail('build', 'the calculator could not be built: %s %s' % (r['res'][0].get('err'), r['res'][0].get('msg')))
            return
        for op, e, o in zip(ops, exp, r['res'][1:]):
            k = op['op']
            if k in ('one', 'many', 'fresh'):
                if k == 'fresh':
                    ctx.count('second_calculators')
                if k == 'one' and e[0] is None:
                    ctx.count('undefined_skipped')
                    continue
                what = op.get('id', op.get('ids'))
                if not o.get('ok'):
                    ctx.fail('evaluate', 'evaluating %r raised %s: %s; expected %r' % (what, o.get('err'), o.get('msg'), e))
                    continue
                if k == 'one':
                    got = [(op['id'], o['ret'])]
                else:
                    rows = [dict(zip(o['ret']['cols'], q)) for q in o['ret']['rows']]
                    got = [(q.get('set'), q.get('rhs')) for q in rows]
                    if [g[0] for g in got] != op['ids']:
                        ctx.fail('evaluate', 'asked for %r, rows for %r' % (op['ids'], [g[0] for g in got]))
                        continue
                for (c, v), x in zip(got, e):
                    ctx.count('values_compared')
                    if not isinstance(v, (int, float)) or not abs(v - x) <= 1e-7 * max(1.0, abs(x)):
                        ctx.fail('evaluate', 'right hand side of %r is %r, expected %r (terms %s)' % (c, v, x, json.dumps([[t['id'], t.get('group'), t['type'], t.get('op'), t['factor'], t['sid']] for t in trees[c]])[:600]))
            elif k == 'set':
                ctx.count('overrides' if e else 'overrides_refused')
                if e and not o.get('ok'):
                    ctx.fail('override', 'override of %s/%s raised %s: %s' % (op['id'], op['type'], o.get('err'), o.get('msg')))
                if not e and (o.get('ok') or o.get('err') != 'ValueError'):
                    ctx.fail('override', 'override of %s/%s, which is not a single recorded value, gave %s instead of ValueError' % (op['id'], op['type'], o.get('err') or 'success'))
            elif k == 'deps':
                ctx.count('dependant_queries')
                if not o.get('ok') or sorted(o['ret']) != sorted(e):
                    ctx.fail('dependants', 'dependants of %s/%s: %r, expected %r' % (op['id'], op['type'], o.get('ret', o.get('err')), e))
            elif k == 'swap':
                ctx.count('tables_updated')
                if not o.get('ok'):
                    ctx.fail('update', 'putting the values of %r into a table raised %s: %s' % (op['ids'], o.get('err'), o.get('msg')))
                    continue
                t = op['table']
                rec_of = lambda f: [dict(zip(f['cols'], q)) for q in f['rows']]
                src, got = rec_of(t), rec_of(o['ret'][0])
                if rec_of(o['ret'][1]) != src:
                    ctx.fail('update', 'the table passed in was changed')
                c = 'volume' if 'volume' in t['cols'] else 'rhs'
                if sorted(o['ret'][0]['cols']) != sorted(t['cols']) or len(got) != len(src):
                    ctx.fail('update', 'columns %s and %d rows became %s and %d rows' % (t['cols'], len(src), o['ret'][0]['cols'], len(got)))
                    continue
                for g, s in zip(got, src):
                    ctx.count('updated_rows', s['set'] in e)
                    x = e.get(s['set'], s[c])
                    if any(g[q] != s[q] for q in s if q != c) or not abs(g[c] - x) <= 1e-7 * max(1.0, abs(x)):
                        ctx.fail('update', 'row %s became %s, recomputed values %s' % (s, g, e))
            elif k == 'nemde':
                ctx.count('published_values')
                if not o.get('ok') or o['ret'] != e:
                    ctx.fail('published', 'published right hand side of %s: %r, expected %r' % (op['id'], o.get('ret', o.get('err')), e))
        for k, v in seen.items():
            ctx.count('op ' + k, v)
        ctx.count('missing_values', w.missing)
        ctx.count('nested_groups', nest > 1)
        ctx.nontrivial = touched or nest > 1
        ctx.sig = hashlib.sha256((text + json.dumps(ops)).encode()).hexdigest()[:16]
        ctx.sample = {'interval': rec['interval'], 'ops': ops[:4], 'terms': rec['constraints'][0].get('terms')}


CHECKS = [Rhs()]
