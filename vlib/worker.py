"""Runs recorded programs against the real nempy (executed with /opt/venv's python).

Protocol: JSON lines on stdin ({"id":..,"kind":..,...}), JSON lines on the duplicated stdout.
Everything nempy prints is discarded.  The worker records, at the client boundary, every call
made on the library and what came back (value or exception); it never judges anything.
"""
import sys, os, json, math, traceback, io

OUT = os.fdopen(os.dup(1), 'w')
devnull = os.open(os.devnull, os.O_WRONLY)
if not os.environ.get('VWORKER_DEBUG'):
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
sys.stdout = open(os.devnull, 'w')
import warnings
warnings.filterwarnings('ignore')
import numpy as np
import pandas as pd


# ---------------------------------------------------------------- reach
# Which lines of the code under test were executed: a line event fires once per line and is then switched off.
REACHED = []


def watch_lines():
    root = os.path.join(os.environ['PYTHONPATH'].split(':')[0], 'nempy') + os.sep
    mon = sys.monitoring

    def line(code, number):
        if code.co_filename.startswith(root) and code.co_name != '<module>':
            REACHED.append((code.co_filename[len(root):], number))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, 'reach')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


# ---------------------------------------------------------------- tables
def make_fn(spec):
    if not isinstance(spec, dict):
        return spec
    if 'poly' in spec:
        c = list(spec['poly'])
        return lambda x: sum(k * x ** i for i, k in enumerate(c))
    if 'absq' in spec:
        a, b = spec['absq']
        return lambda x: a * abs(x) + b * x * x
    if 'pw' in spec:
        xs, ys = spec['pw']
        return lambda x: float(np.interp(x, xs, ys))
    raise ValueError('fn')


def to_df(t):
    cols = {}
    types = t.get('types', {})
    rows = t['rows']
    for j, c in enumerate(t['cols']):
        v = [r[j] for r in rows]
        ty = types.get(c)
        if ty == 'fn':
            cols[c] = pd.Series([make_fn(x) for x in v], dtype=object)
        elif ty == 'int':
            cols[c] = pd.Series(v, dtype=np.int64)
        elif ty == 'obj':
            cols[c] = pd.Series(v, dtype=object)
        elif ty == 'bool':
            cols[c] = pd.Series(v, dtype=bool)
        elif ty == 'float' or (v and all(isinstance(x, (int, float)) or x is None or x in ('inf', '-inf') for x in v)):
            cols[c] = pd.Series([float('nan') if x is None else float(x) for x in v], dtype=np.float64)
        else:
            cols[c] = pd.Series(v, dtype=object)
    df = pd.DataFrame(cols, columns=list(t['cols']))
    if t.get('index') is not None:
        df.index = t['index']
    return df


def clean(x):
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return None
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        return x
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if x is None or isinstance(x, (str, int)):
        return x
    if x is pd.NaT:
        return None
    if isinstance(x, pd.Timestamp):
        return str(x)
    if callable(x):
        return '<fn>'
    if isinstance(x, pd.DataFrame):
        return from_df(x)
    if isinstance(x, pd.Series):
        return [clean(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [clean(v) for v in x]
    return str(x)


def from_df(df):
    return {'cols': [str(c) for c in df.columns],
            'rows': [[clean(v) for v in r] for r in df.itertuples(index=False, name=None)]}


def arg(v):
    if isinstance(v, dict) and 'cols' in v and 'rows' in v:
        return to_df(v)
    return v


def err(e):
    chain = [c.__name__ for c in type(e).__mro__]
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    return {'err': type(e).__name__, 'mro': chain, 'msg': str(e)[:300],
            'at': '%s:%s' % (os.path.basename(last.filename), last.name) if last else ''}


REPORTS = ['get_unit_dispatch', 'get_energy_prices', 'get_fcas_prices', 'get_interconnector_flows',
           'get_region_dispatch_summary', 'get_fcas_availability', 'get_constraint_set_names']


def report(m, which=None):
    out = {}
    for r in which or REPORTS:
        try:
            out[r] = clean(getattr(m, r)())
        except Exception as e:
            out[r] = err(e)
    out['objective_value'] = clean(m.objective_value)
    names = out.get('get_constraint_set_names')
    deg = {}
    if isinstance(names, list):
        for k in names:
            try:
                deg[k] = clean(float(m.get_elastic_constraints_violation_degree(k)))
            except Exception as e:
                deg[k] = err(e)
    out['violation'] = deg
    return out


def run_market(job):
    from nempy import markets
    res = []
    ui = to_df(job['unit_info'])
    try:
        m = markets.SpotMarket(market_regions=list(job['regions']), unit_info=ui,
                               dispatch_interval=job.get('dispatch_interval', 5))
    except Exception as e:
        return {'init': err(e), 'calls': []}
    for c in job['calls']:
        if 'report' in c:
            res.append(report(m, c['report'] if isinstance(c['report'], list) else None))
            continue
        try:
            f = getattr(m, c['m'])
            a = {k: arg(v) for k, v in c.get('a', {}).items()}
            before = None
            if c.get('snap'):
                before = {k: v.copy(deep=True) for k, v in a.items() if isinstance(v, pd.DataFrame)}
            r = f(**a)
            o = {'ok': True}
            if c.get('ret'):
                o['ret'] = clean(r)
            if before is not None:
                o['rows_changed'] = [k for k in before if not a[k].loc[:, list(before[k].columns)].equals(before[k])]
            res.append(o)
        except Exception as e:
            res.append(err(e))
            if job.get('stop_on_error') and not c.get('may_fail'):
                break
    return {'init': {'ok': True}, 'calls': res}


HANDLERS = {'market': run_market}


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    watch_lines()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        job = json.loads(line)
        kind = job['kind']
        try:
            if kind not in HANDLERS:
                import worker_hist, worker_iso, worker_recreate
                HANDLERS.update(worker_hist.HANDLERS)
                HANDLERS.update(worker_iso.HANDLERS)
                HANDLERS.update(worker_recreate.HANDLERS)
            r = HANDLERS[kind](job)
        except Exception as e:
            r = {'harness_error': err(e), 'tb': traceback.format_exc()[-1500:]}
        reached, REACHED[:] = list(REACHED), []
        OUT.write(json.dumps({'id': job['id'], 'r': r, 'reached': reached}) + '\n')
        OUT.flush()


if __name__ == '__main__':
    main()
