"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "explicit-state exploration of all operation histories up to a depth on the real code, against a reference model"
GRID = "exhaustive enumeration of a bounded input space on the real code, each execution compared with a reference model"
LOCK = "bounded exhaustive exploration of traces on the real code, every step in lockstep with a reference tracer"
TECH = {'C01': LOCK, 'C02': GRID, 'C03': GRID, 'C04': LOCK, 'C05': LOCK, 'C06': LOCK, 'C07': 'exhaustive enumeration of bundle compositions (subsets, orders, repetitions) on the real code against single-ray traces',
        'C08': HIST, 'C09': HIST, 'C10': 'exhaustive enumeration of (scene, motion, level) on the real code against the moved unmoved trace', 'C11': HIST, 'C12': HIST,
        'C13': 'exhaustive enumeration of all ownership/relevance answer tables on the real engine, in lockstep with a reference engine',
        'C14': GRID, 'C15': 'exhaustive enumeration of the random outcomes on a grid (controlled random source) on the real code, against support and inverse-CDF law',
        'C16': GRID, 'C17': GRID, 'C18': LOCK, 'C19': GRID, 'C20': HIST, 'C21': GRID, 'C22': HIST, 'C23': HIST, 'C24': HIST}
checks, missing = [], []
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    ids = [json.loads(l)['id'] for l in f]
for pid in ids:
    if os.path.exists(os.path.join(HERE, 'mc', 'props', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH[pid], 'level': 'model_checking',
                       'level_note': 'Exhaustive within the bounds stated in the evidence file (rule, assumptions); every explored execution runs the real code, so the model is validated on each of them.'})
    else:
        missing.append({'property': pid, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing}, f, indent=1)
    f.write('\n')
