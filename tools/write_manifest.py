"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vlib'))
import registry

T_MARKET = 'runtime monitoring of generated market executions at the API boundary; offline oracle over the recorded results, backed by an independent reference model'
T_STATE = 'runtime monitoring of generated call histories; offline trace oracle against a last-inputs reference model'
T_HIST = 'runtime monitoring of the historical readers on synthetic records; offline oracle recomputing every returned table'
TECH = {'C12': T_MARKET, 'C13': T_MARKET, 'C14': T_STATE, 'C15': 'runtime monitoring of transformed executions; metamorphic and reference oracles over recorded results',
        'C16': 'runtime monitoring under hostile inputs; online specification of documented refusals and an unchanged-state monitor',
        'C18': T_HIST, 'C19': T_HIST, 'C20': 'runtime monitoring with file system and network stand-ins; trace oracle over files read and fetched',
        'C21': T_HIST, 'C22': 'runtime monitoring of database lookups on generated tables; offline oracle recomputing the rows in force',
        'C23': 'runtime monitoring of population histories with injected download faults; offline conservation (exactly-once) oracle over the database',
        'C24': 'runtime monitoring of generated expressions; offline oracle evaluating them independently', 'C25': T_HIST,
        'C26': 'runtime monitoring of chained interval executions; trace oracle over consecutive dispatches',
        'C27': 'runtime monitoring of interleaved executions sharing tables; online table change monitor and differential oracle against the same executions in isolation',
        'C28': 'runtime monitoring of whole historical recreations; every call recorded, offline oracle over each dispatch and settlement against the interval records'}
NOTE = ('Every execution in the explored workload is judged by the oracle; assurance is over the executions observed (seeded, counts in the evidence file). '
        'Trusts the reference model and generators in vlib, HiGHS as second solver where costs are compared, and the numerical tolerances stated in DESIGN.md.')


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    have = registry.all_checks()
    m = {'version': 1,
         'setup_cmd': 'python3-vt -c "import scipy.optimize, numpy" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import nempy.markets"',
         'checks': [{'property': p, 'quick_cmd': './check.py %s --tier quick' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
                     'technique': TECH.get(p, T_MARKET), 'level': 'exploration', 'level_note': NOTE} for p in props if p in have],
         'not_applicable': [{'property': p, 'reason': 'The check for this property is not finished yet.'} for p in props if p not in have],
         'notes': 'check.py ID runs one check; --replay FILE re-executes a recorded violation. The code under test is imported from /repo/src in worker processes; there are no hooks in /repo.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
