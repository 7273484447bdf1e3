"""Several markets alive in one process, fed from shared table objects, while the caller goes on using its tables.

One job: programs (lists of market calls whose table arguments are references into a pool of tables), a schedule that
interleaves them, and the tables the caller overwrites afterwards.  Every program is first run alone with its own copies
of the tables; then all are run together.  The worker records what each call did to the tables it was given, how calls
ended and what the markets reported; it judges nothing.
"""
import numpy as np
import pandas as pd
from __main__ import to_df, err, clean, report


def scribble(df, how):
    """the caller goes on using its own table: overwrite, drop or add things in place"""
    try:
        if how == 'numbers':
            for c in df.columns:
                if df[c].dtype.kind in 'if':
                    df.loc[:, c] = df[c].dtype.type(7)
        elif how == 'names':
            for c in df.columns:
                if df[c].dtype.kind == 'O' and len(df):
                    df.loc[:, c] = 'SCRIBBLE'
        elif how == 'rows':
            df.drop(index=list(df.index), inplace=True)
        elif how == 'cols':
            df.drop(columns=list(df.columns)[::2], inplace=True)
        elif how == 'add':
            df['scribble'] = 1.0
    except (ValueError, TypeError):
        pass


def changed(before, after):
    """what the call did to a table of the caller"""
    if list(before.columns) != list(after.columns):
        return 'columns %s became %s' % (list(before.columns), list(after.columns))
    if len(before) != len(after) or not before.index.equals(after.index):
        return 'index changed'
    if list(before.dtypes) != list(after.dtypes):
        return 'types changed'
    for j, c in enumerate(before.columns):
        x, y = before.iloc[:, j].tolist(), after.iloc[:, j].tolist()
        for a, b in zip(x, y):
            if not (a is b or a == b or (a != a and b != b)):
                return 'values of %s changed' % c
    return None


class Run:
    def __init__(self, prog, tables, tell):
        from nempy import markets
        self.markets, self.prog, self.tables, self.tell = markets, prog, tables, tell
        self.m, self.out, self.dead = None, [], False

    def get(self, v):
        return self.tables[v['$t']] if isinstance(v, dict) and '$t' in v else v

    def step(self, c, scribble_reports=None):
        if self.dead:
            return
        if c.get('m') == '__init__':
            args = {'market_regions': list(self.prog['regions']), 'unit_info': self.get(c['a']['unit_info'])}
            if self.prog.get('dispatch_interval', 5) != 5:
                args['dispatch_interval'] = self.prog['dispatch_interval']
            f = lambda **k: setattr(self, 'm', self.markets.SpotMarket(**k))
        elif 'report' in c:
            r = report(self.m)
            if scribble_reports:
                # the reports handed out are the caller's own: overwriting one must not show up in the next
                for name in ('get_unit_dispatch', 'get_energy_prices', 'get_fcas_prices', 'get_interconnector_flows', 'get_region_dispatch_summary', 'get_fcas_availability'):
                    try:
                        scribble(getattr(self.m, name)(), scribble_reports)
                    except Exception:
                        pass
                r2 = report(self.m)
                self.out.append({'report': r, 'again': r2})
            else:
                self.out.append({'report': r})
            return
        else:
            args = {k: self.get(v) for k, v in c.get('a', {}).items()}
            f = getattr(self.m, c['m'])
        before = {k: v.copy(deep=True) for k, v in args.items() if isinstance(v, pd.DataFrame)}
        regions = list(args.get('market_regions', []))
        try:
            f(**args)
            o = {'ok': True}
        except Exception as e:
            o = err(e)
            if c.get('m') == '__init__':
                self.dead = True
        for k in before:
            d = changed(before[k], args[k])
            self.tell(c['m'], k, len(before[k]), d)
        if regions != list(args.get('market_regions', [])):
            self.tell(c['m'], 'market_regions', 1, 'regions changed')
        self.out.append(o)


def run_isolation(job):
    make = lambda: {k: to_df(t) for k, t in job['tables'].items()}
    alone = []
    for p in job['programs']:
        # its own copies, a fresh one for every call
        class Fresh(dict):
            def __getitem__(self, k):
                return to_df(job['tables'][k])
        r = Run(p, Fresh(), lambda *a: None)
        for c in p['calls']:
            r.step(c)
        alone.append(r.out)
    events = []
    tables = make()
    runs = []
    for i, p in enumerate(job['programs']):
        runs.append(Run(p, tables, lambda m, k, n, d, i=i: events.append([i, m, k, n, d])))
    scribbles = 0
    for s in job['schedule']:
        if 'scribble' in s:
            scribble(tables[s['scribble']], s['how'])
            scribbles += 1
            continue
        i, n = s['step']
        runs[i].step(job['programs'][i]['calls'][n], s.get('scribble_reports'))
    return {'alone': alone, 'together': [r.out for r in runs], 'passed': events, 'scribbles': scribbles}


HANDLERS = {'isolation': run_isolation}
