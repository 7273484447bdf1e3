"""Runs the cases of one check over several driver processes, each owning one nempy worker process.

A case is a pure function of (check, tier, seed, index): it generates a workload, executes it against the code in
/repo through the worker, and lets the oracles judge the recorded events.  Verdicts are three valued: findings,
nothing found, or inconclusive (harness timeout, oracle timeout); inconclusive cases never count as either.
"""
import hashlib, json, multiprocessing as mp, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENOUGH = 12  # confirmed violating cases after which a run need not go on
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


def case_seed(check, seed, idx):
    return int(hashlib.sha256(('%s/%s/%s' % (check, seed, idx)).encode()).hexdigest()[:12], 16)


class Ctx:
    """Handed to a case: the worker, counters and the list of findings."""

    def __init__(self, worker, tier, seed):
        self.worker, self.tier, self.seed = worker, tier, seed
        self.stats = {}
        self.findings = []
        self.inconclusive = 0
        self.nontrivial = False
        self.sig = None
        self.sample = None
        self.replay = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fail(self, monitor, msg, **kw):
        self.findings.append(dict(monitor=monitor, msg=msg, **kw))

    def run(self, job, timeout=150):
        """execute a job; None when the harness could not observe it (inconclusive)"""
        r = self.worker.run(job, timeout)
        if 'harness_error' in r:
            self.inconclusive += 1
            self.count('harness:' + str(r['harness_error'].get('err')))
            if r['harness_error'].get('err') not in ('timeout', 'died'):
                self.count('harness_detail:' + str(r['harness_error'])[:300])
            return None
        return r


def _drive(check, tier, seed, counter, total, deadline, q, only, confirmed):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VWORKER_DEBUG'):
        os.dup2(devnull, 2)
    from pool import Worker
    w = Worker()
    reached = set()
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= total or time.time() > deadline or confirmed.value >= ENOUGH:
                break
            idx = only[i] if only is not None else i
            out = run_case(check, tier, seed, idx, w)
            if out['findings']:
                # confirm in a fresh worker process before reporting
                w.close()
                reached |= w.reached
                w = Worker()
                import refmodel
                refmodel.DEEP[0] = True
                again = run_case(check, tier, seed, idx, w)
                refmodel.DEEP[0] = False
                if not again['findings']:
                    out['findings'] = []
                    out['inconclusive'] += 1
                    out['stats']['unconfirmed'] = out['stats'].get('unconfirmed', 0) + 1
                elif only is None:
                    with confirmed.get_lock():
                        confirmed.value += 1
            q.put(out)
    except Exception:
        q.put({'crash': traceback.format_exc()})
    finally:
        w.close()
        q.put({'reached': reached | w.reached})
        q.put(None)


def run_case(check, tier, seed, idx, w):
    ctx = Ctx(w, tier, seed)
    try:
        check.case(ctx, case_seed(check.ID, seed, idx), idx)
    except Exception:
        ctx.inconclusive += 1
        ctx.count('oracle_error')
        ctx.count('oracle_error_detail:' + traceback.format_exc()[-500:])
    return {'idx': idx, 'findings': ctx.findings, 'stats': ctx.stats, 'inconclusive': ctx.inconclusive, 'nontrivial': ctx.nontrivial,
            'sig': ctx.sig, 'sample': ctx.sample if (ctx.nontrivial and idx < 40) or ctx.findings else None, 'replay': ctx.replay if ctx.findings else None}


def function_lines(path):
    out = set()

    def walk(code):
        if code.co_name != '<module>':
            out.update(l for _, _, l in code.co_lines() if l is not None and l != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, 'co_lines'):
                walk(c)
    walk(compile(open(path).read(), path, 'exec'))
    return out


def reach(reached):
    """per file of the code under test: lines inside functions that the workload executed, of those there are"""
    root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'nempy')
    out = {}
    for f in sorted({f for f, _ in reached}):
        try:
            lines = function_lines(os.path.join(root, f))
        except (OSError, SyntaxError):
            continue
        out[f] = '%d/%d' % (len({l for g, l in reached if g == f} & lines), len(lines))
        if os.environ.get('VERIF_UNREACHED'):
            with open(os.path.join(os.environ['VERIF_UNREACHED'], f.replace('/', '_') + '.' + str(os.getpid())), 'w') as h:
                json.dump(sorted(l for g, l in reached if g == f), h)
    return out


def load_known(cid):
    known = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % cid):
                mech = line.split('mechanism=', 1)[1].split()[0] if 'mechanism=' in line else None
                known.append((mech, line))
    return known


def run_check(check, tier, seed, only=None, verbose=False):
    t0 = time.time()
    total = len(only) if only is not None else check.CASES[tier]
    budget = check.BUDGET[tier] if hasattr(check, 'BUDGET') else {'quick': 420, 'thorough': 3000}[tier]
    deadline = t0 + budget
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    counter = ctxm.Value('i', 0)
    confirmed = ctxm.Value('i', 0)
    n = min(NPROC, total)
    ps = [ctxm.Process(target=_drive, args=(check, tier, seed, counter, total, deadline, q, only, confirmed), daemon=True) for _ in range(n)]
    for p in ps:
        p.start()
    outs, done, crashes, reached = [], 0, [], set()
    while done < n:
        try:
            o = q.get(timeout=max(5.0, deadline + 300 - time.time()))
        except Exception:
            crashes.append('driver timeout')
            break
        if o is None:
            done += 1
        elif 'reached' in o:
            reached |= o['reached']
        elif 'crash' in o:
            crashes.append(o['crash'])
        else:
            outs.append(o)
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.terminate()
    outs.sort(key=lambda o: o['idx'])
    stats, sigs, incon = {}, set(), 0
    violations = []
    for o in outs:
        for k, v in o['stats'].items():
            stats[k] = stats.get(k, 0) + v
        incon += 1 if o['inconclusive'] else 0
        if o['nontrivial'] and o['sig']:
            sigs.add(o['sig'])
        if o['findings']:
            violations.append(o)
    known = load_known(check.ID)
    known_mech = {m: l for m, l in known if m}
    printed, real = set(), []
    for o in violations:
        fs = [f for f in o['findings'] if f.get('mechanism') not in known_mech]
        for f in o['findings']:
            if f.get('mechanism') in known_mech:
                printed.add(f['mechanism'])
        if fs:
            real.append((o, fs))
    for m, l in known:
        # a listed finding is printed whether or not this run met it
        print(l)
    if stats.get('oracle_error') or crashes or verbose:
        for k, v in sorted(stats.items()):
            if k.startswith(('oracle_error', 'harness')):
                print('note:', k, v, file=sys.stderr)
        for c in crashes:
            print('note: driver', c, file=sys.stderr)
    ev = {'property': check.ID, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
          'coverage': {'evaluations': len(outs), 'distinct_nontrivial': len(sigs), 'rule': check.RULE,
                       'samples': [o['sample'] for o in outs if o['sample'] is not None][:3],
                       'observed': {k: v for k, v in sorted(stats.items()) if not k.startswith(('oracle_error_detail', 'harness_detail'))},
                       'lines_executed': reach(reached),
                       'inconclusive': incon, 'planned': total},
          'assumptions': getattr(check, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    if only is None:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', check.ID + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if verbose:
        print(json.dumps(ev['coverage']['observed'], indent=0)[:6000])
        print('cases', len(outs), 'nontrivial', len(sigs), 'inconclusive', incon, 'wall', ev['wall_s'])
    if real:
        d = os.path.join(ROOT, 'replays', check.ID)
        os.makedirs(d, exist_ok=True)
        for o, fs in real[:10]:
            p = os.path.join(d, 'case_%s_%s_%d.json' % (tier, seed, o['idx']))
            with open(p, 'w') as f:
                json.dump({'property': check.ID, 'tier': tier, 'seed': seed, 'index': o['idx'], 'findings': fs, 'witness': o['replay']}, f, indent=1)
            for x in fs[:2]:
                print('  case %d: %s: %s' % (o['idx'], x['monitor'], x['msg'][:400]))
            print('VIOLATION property=%s replay=%s' % (check.ID, p))
        return 1
    need = check.MIN_EVENTS if hasattr(check, 'MIN_EVENTS') else {}
    if len(outs) < max(1, total // 4) or incon > len(outs) // 2 or not sigs:
        print('INCONCLUSIVE property=%s: %d of %d cases observed, %d inconclusive, %d non-trivial' % (check.ID, len(outs), total, incon, len(sigs)))
        return 2
    for k, v in need.items():
        if only is None and stats.get(k, 0) < v:
            print('INCONCLUSIVE property=%s: monitor %s observed %d events, needs %d' % (check.ID, k, stats.get(k, 0), v))
            return 2
    print('HELD property=%s on %d executions (%d distinct non-trivial, %d inconclusive), %.1f s' % (check.ID, len(outs), len(sigs), incon, time.time() - t0))
    return 0
