"""Worker side of the historical checks: scratch caches and databases, a recorded stand-in for AEMO's web site."""
import os, io, sys, json, shutil, tempfile, time, zipfile
import requests, requests.adapters
import pandas as pd
import numpy as np
import worker_iso
from worker import clean, err, to_df, from_df

SLEEPS = []
_real_sleep = time.sleep


def _fake_sleep(s):
    SLEEPS.append(s)


time.sleep = _fake_sleep          # before nempy.historical_inputs is imported: it binds the name
WEB = {'fn': None, 'log': []}


def _fake_send(self, request, **kw):
    url = request.url
    WEB['log'].append(url)
    status, content = WEB['fn'](url)
    if status == 'refused':
        raise requests.exceptions.ConnectionError('no route')
    r = requests.Response()
    r.status_code = status
    r._content = content
    r.url = url
    r.request = request
    r.headers['Content-Type'] = 'application/zip' if content[:2] == b'PK' else 'text/html'
    r.reason = 'OK' if status == 200 else 'Not Found'
    return r


requests.adapters.HTTPAdapter.send = _fake_send


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vhist_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def call(f, *a, **k):
    try:
        return {'ok': True, 'ret': clean(f(*a, **k))}
    except Exception as e:
        return err(e)


def zipped(files):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for n, t in files.items():
            z.writestr(n, t)
    return b.getvalue()


def run_xml(job):
    """ops over one XMLCacheManager; job: files {name: text} already cached, web {market day yyyymmdd: {name: text} | 'junk' | 'missing'}, ops [...]"""
    from nempy.historical_inputs import xml_cache, loaders
    with Scratch() as d:
        cache = os.path.join(d, 'cache')
        os.mkdir(cache)
        for n, t in job.get('files', {}).items():
            with open(os.path.join(cache, n), 'w', encoding='utf-8') as f:
                f.write(job['texts'][t] if isinstance(t, int) else t)
        fails = dict(job.get('fail_first', {}))

        def web(url):
            base = url.rsplit('/', 1)[-1]
            ok = job.get('url_rule')
            day = ''.join(ch for ch in base if ch.isdigit())[:8]
            exp = 'https://www.nemweb.com.au/Data_Archive/Wholesale_Electricity/NEMDE/%s/NEMDE_%s_%s/NEMDE_Market_Data/NEMDE_Files/NemSpdOutputs_%s_loaded.zip' % (day[:4], day[:4], day[4:6], day)
            if url.lower() != exp.lower():
                return 404, b'<html>not found</html>'
            if fails.get(day, 0) > 0:
                fails[day] -= 1
                return 200, b'<html>busy</html>'
            w = job.get('web', {}).get(day)
            if w is None:
                return (404, b'<html>404</html>') if not job.get('refuse') else ('refused', b'')
            return 200, zipped({n: (job['texts'][t] if isinstance(t, int) else t) for n, t in w.items()})

        WEB['fn'], WEB['log'] = web, []
        del SLEEPS[:]
        m = xml_cache.XMLCacheManager(cache)
        L = loaders.RawInputsLoader(nemde_xml_cache_manager=m, market_management_system_database=None)
        res = []
        for op in job['ops']:
            k = op['op']
            if k == 'get':
                obj = L if op.get('via') == 'loader' else m
                o = call(getattr(obj, op['name']))
            elif k == 'load':
                if op.get('via') == 'loader':
                    o = call(L.set_interval, op['t'])
                else:
                    o = call(m.load_interval, op['t'])
                o.pop('ret', None)
            elif k == 'call':
                o = call(getattr(m, op['name']), *op.get('args', []), **op.get('kw', {}))
            elif k == 'ls':
                o = {'ok': True, 'ret': sorted(os.listdir(cache))}
            elif k == 'rm':
                p = os.path.join(cache, op['name'])
                o = {'ok': os.path.exists(p)}
                if o['ok']:
                    os.remove(p)
            if isinstance(o.get('ret'), str):
                o['ret'] = o['ret'].replace(cache + '/', '')
            o['web'] = list(WEB['log'])
            del WEB['log'][:]
            res.append(o)
        return {'res': res, 'sleeps': len(SLEEPS)}


HANDLERS = {'xml': run_xml}


# ---------------------------------------------------------------------------------------- market database
def mms_url(table, ym):
    y, m = ym[:4], ym[4:]
    base = 'http://nemweb.com.au/Data_Archive/Wholesale_Electricity/MMSDM/%s/MMSDM_%s_%s/MMSDM_Historical_Data_SQLLoader/DATA/' % (y, y, m)
    if (int(y), int(m)) >= (2024, 8):
        return base + 'PUBLIC_ARCHIVE%%23%s%%23FILE01%%23%s010000.zip' % (table, ym)
    return base + 'PUBLIC_DVD_%s_%s010000.zip' % (table, ym)


def csv_file(t):
    rows = ['C,NEMP.WORLD,SYNTHETIC,AEMO,PUBLIC']
    rows.append(','.join(['I', 'DISPATCH', 'TAB', '1'] + t['cols']))
    for r in t['rows']:
        rows.append(','.join(['D', 'DISPATCH', 'TAB', '1'] + ['' if v is None else ('"%s"' % v if isinstance(v, str) else repr(v)) for v in r]))
    rows.append('C,"END OF REPORT",%d' % (len(t['rows']) + 3))
    return '\n'.join(rows) + '\n'


def run_db(job):
    """ops over one DBManager on a scratch database; job['mms'] = {'TABLE/yyyymm': table or {'status': 404}}"""
    import sqlite3
    from nempy.historical_inputs import mms_db
    with Scratch() as d:
        con = sqlite3.connect(os.path.join(d, 'h.db'))
        try:
            served = {}
            for k, t in job.get('mms', {}).items():
                table, ym = k.split('/')
                served[mms_url(table, ym).lower()] = k
            asked = []

            def web(url):
                k = served.get(url.lower())
                if k is None:
                    return (404, b'<html>404</html>') if not job.get('refuse') else ('refused', b'')
                t = job['mms'][k]
                if 'status' in t:
                    return t['status'], b'<html>error</html>'
                asked.append(k)
                return 200, zipped({'PUBLIC_%s.CSV' % k.replace('/', '_'): csv_file(t)})

            WEB['fn'], WEB['log'] = web, []
            db = mms_db.DBManager(con)
            extra = {}
            for n, x in job.get('extra', {}).items():
                extra[n] = getattr(mms_db, x['cls'])(table_name=n, table_columns=x['cols'], table_primary_keys=x['keys'], con=con)
            res = []
            for op in job['ops']:
                k = op['op']
                tab = None
                if 'table' in op:
                    tab = extra.get(op['table']) or getattr(db, op['table'])
                if k == 'create':
                    o = call(tab.create_table_in_sqlite_db) if tab is not None else call(db.create_tables)
                elif k == 'insert':
                    def ins():
                        to_df(op['data']).to_sql(op['table'], con=con, if_exists=op.get('mode', 'append'), index=False)
                        con.commit()
                    o = call(ins)
                elif k == 'get':
                    o = call(tab.get_data, *([op['t']] if op.get('t') else []))
                elif k == 'set':
                    o = call(tab.set_data, year=op['y'], month=op['m'])
                elif k == 'add':
                    o = call(tab.add_data, year=op['y'], month=op['m'])
                elif k == 'populate':
                    o = call(db.populate, **op['kw'])
                elif k == 'dump':
                    o = call(lambda: pd.read_sql_query('select * from %s' % op['table'], con=con))
                o.pop('tb', None)
                res.append(o)
            return {'res': res}
        finally:
            con.close()


HANDLERS['db'] = run_db


# ---------------------------------------------------------------------------------------- right hand sides
def run_rhs(job):
    """a history of evaluations and overrides over one RHSCalc"""
    from nempy.historical_inputs import xml_cache, rhs_calculator
    with Scratch() as d:
        with open(os.path.join(d, job['file']), 'w', encoding='utf-8') as f:
            f.write(job['text'])
        WEB['fn'], WEB['log'] = (lambda url: ('refused', b'')), []
        box = {}

        def build():
            m = xml_cache.XMLCacheManager(d)
            m.load_interval(job['interval'])
            box['m'], box['c'] = m, rhs_calculator.RHSCalc(m)
        res = [call(build)]
        if res[0].get('ok'):
            c = box['c']
            for op in job['ops']:
                k = op['op']
                if k == 'one':
                    o = call(c.compute_constraint_rhs, op['id'])
                elif k == 'many':
                    o = call(c.compute_constraint_rhs, op['ids'])
                elif k == 'set':
                    o = call(c.update_spd_id_value, op['id'], op['type'], op['value'])
                elif k == 'deps':
                    o = call(c.get_rhs_constraint_equations_that_depend_value, op['id'], op['type'])
                elif k == 'fresh':         # another calculator over the same loaded file
                    o = call(lambda: rhs_calculator.RHSCalc(box['m']).compute_constraint_rhs(op['ids']))
                elif k == 'swap':          # recomputed values put into a constraint table
                    def swap():
                        from nempy.help_functions.helper_functions import update_rhs_values
                        t = to_df(op['table'])
                        new = c.compute_constraint_rhs(op['ids'])
                        out = update_rhs_values(t, new)
                        return [from_df(out), from_df(t), from_df(new)]
                    o = call(swap)
                elif k == 'nemde':
                    o = call(c.get_nemde_rhs, op['id'])
                res.append(o)
        return {'res': res}


HANDLERS['rhs'] = run_rhs


# ---------------------------------------------------------------------------------------- chains of intervals
def run_chain(job):
    from nempy import markets, time_sequential
    out, last = [], None
    for t, st in enumerate(job['steps']):
        o, ramp = {}, None
        rates = to_df(st['ramp'])
        before = rates.copy()
        if t == 0:
            if job['seed'] is not None:
                h = to_df(job['seed'])
                hb = h.copy()
                box = {}
                o['ramp'] = call(lambda: box.setdefault('r', time_sequential.create_seed_ramp_rate_parameters(h, rates)))
                ramp = box.get('r')
                o['inputs_changed'] = not (rates.equals(before) and h.equals(hb))
        else:
            box = {}
            d = last.drop(columns='service') if st['drop_service'] and (last['service'] == 'energy').all() else last.copy()
            db = d.copy()
            o['ramp'] = call(lambda: box.setdefault('r', time_sequential.construct_ramp_rate_parameters(d, rates)))
            ramp = box.get('r')
            o['inputs_changed'] = not (rates.equals(before) and d.equals(db))
        out.append(o)
        if 'ramp' in o and not o['ramp'].get('ok'):
            break
        box = {}

        def go():
            m = markets.SpotMarket(market_regions=list(job['regions']), unit_info=to_df(job['unit_info']), dispatch_interval=st['interval'])
            m.set_unit_volume_bids(to_df(st['volume']))
            m.set_unit_price_bids(to_df(st['price']))
            if ramp is not None and not ramp.empty:
                m.set_unit_ramp_rate_constraints(ramp.copy())
            m.set_demand_constraints(to_df(st['demand']))
            m.make_constraints_elastic('demand', 14000.0)
            if 'fcas' in st:
                m.set_fcas_requirements_constraints(to_df(st['fcas']))
                m.make_constraints_elastic('fcas', 13000.0)
            m.dispatch()
            box['d'] = m.get_unit_dispatch()
        o['run'] = call(go)
        if not o['run'].get('ok'):
            break
        last = box['d']
        o['dispatch'] = clean(last)
    return {'steps': out}


HANDLERS['chain'] = run_chain


# ---------------------------------------------------------------------------------------- historical builders
def run_hist(job):
    """builders over a real loader: job texts {file name: xml}, db {table: rows}, interval, ops [{'cls','name','args'}]"""
    import sqlite3
    from nempy.historical_inputs import mms_db, xml_cache, loaders, units, interconnectors, demand, constraints
    with Scratch() as d:
        cache = os.path.join(d, 'cache')
        os.mkdir(cache)
        for n, t in job['texts'].items():
            with open(os.path.join(cache, n), 'w', encoding='utf-8') as f:
                f.write(t)
        con = sqlite3.connect(os.path.join(d, 'h.db'))
        try:
            db = mms_db.DBManager(con)
            db.create_tables()
            con.commit()
            for name, t in job['db'].items():
                to_df(t).to_sql(name, con=con, if_exists=t.get('mode', 'append'), index=False)
            con.commit()

            def web(url):
                return 404, b'<html>404</html>'
            WEB['fn'], WEB['log'] = web, []
            L = loaders.RawInputsLoader(xml_cache.XMLCacheManager(cache), db)
            L.set_interval(job['interval'])
            mods = {'UnitData': units, 'InterconnectorData': interconnectors, 'DemandData': demand, 'ConstraintData': constraints}
            obj = {}
            res = []
            import warnings
            handed = []                # tables handed out by the current call
            touched = []

            def keep(f):
                def g(*a, **k):
                    r = f(*a, **k)
                    handed[:] = [x for x in (r if isinstance(r, (tuple, list)) else [r]) if hasattr(x, 'columns')]
                    return r
                return g
            for op in job['ops']:
                k = op['op']
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if k == 'new':
                        def make():
                            obj[op.get('as', op['cls'])] = getattr(mods[op['cls']], op['cls'])(L)
                        o = call(make)
                    elif k == 'interval':
                        o = call(L.set_interval, op['t'])
                    elif k == 'losses':        # loss functions are observed through their values
                        def losses():
                            f, b = keep(obj[op['on']].get_interconnector_loss_model)()
                            f = f.copy()
                            f['losses'] = [[clean(float(fn(x))) for x in op['flows']] for fn in f['loss_function']]
                            t = from_df(f.drop(columns=['loss_function', 'losses']))
                            t['losses'] = f['losses'].tolist()
                            return [t, from_df(b)]
                        o = call(losses)
                    elif k == 'loss_fn':
                        def loss_fn():
                            f = interconnectors.create_loss_functions(*[to_df(x) for x in op['args']])
                            return [[i, clean(float(s)), [clean(float(fn(x))) for x in op['flows']]] for i, s, fn in
                                    zip(f['interconnector'], f['from_region_loss_share'], f['loss_function'])]
                        o = call(loss_fn)
                    else:
                        a = [to_df(x) if isinstance(x, dict) and 'cols' in x else x for x in op.get('args', [])]
                        kw = {q: to_df(x) if isinstance(x, dict) and 'cols' in x else x for q, x in op.get('kw', {}).items()}
                        given = [x for x in a + list(kw.values()) if hasattr(x, 'columns')] if job.get('watch') else []
                        before = [x.copy(deep=True) for x in given]
                        o = call(keep(getattr(obj[op['on']], op['name'])), *a, **kw)
                        for x, y in zip(before, given):
                            touched.append([op['name'], worker_iso.changed(x, y)])
                if op.get('overwrite'):
                    for x in handed:
                        worker_iso.scribble(x, op['overwrite'])
                handed[:] = []
                o.pop('tb', None)
                res.append(o)
            return {'res': res, 'touched': touched}
        finally:
            con.close()


HANDLERS['hist'] = run_hist
