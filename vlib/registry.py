"""Property id -> check object."""
import importlib

MODULES = ['checks_market', 'checks_tie', 'checks_rerun', 'checks_hist_state', 'checks_layout', 'checks_validate',
           'checks_bids', 'checks_units', 'checks_xml', 'checks_db', 'checks_rhs', 'checks_network', 'checks_chain',
           'checks_isolation', 'checks_recreate']


def all_checks():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for c in mod.CHECKS:
            out[c.ID] = c
    return out


def get(cid):
    c = all_checks()
    if cid not in c:
        raise SystemExit('no check for %s' % cid)
    return c[cid]
