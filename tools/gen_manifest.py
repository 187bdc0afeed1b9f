"""Writes MANIFEST.json: the checks which exist under mc/checks, the other properties as not applicable (with a reason)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMPILED = 'exhaustive enumeration of bounded inputs on the compiled code'
TECHNIQUE = {
    'C01': 'bounded-exhaustive enumeration of utility tables on the compiled code, against the closed formula',
    'C02': 'bounded-exhaustive enumeration of trees, construction orders, scales and utilities on the compiled code, against the recursive formula',
    'C03': 'bounded-exhaustive enumeration of probability vectors and all critical draws on the compiled code',
    'C04': 'stateless model checking of the parallel loops under a controlled scheduler (all assignments, partial-order reduced interleavings), bound to the compiled code by conformance runs',
    'C05': 'fault enumeration (every position of every bad utility) under the controlled scheduler, and on the compiled code',
    'C06': 'bounded-exhaustive enumeration of trees, names, indexes and run options on the real code',
    'C07': 'bounded-exhaustive enumeration of the expression grammar on the real code, against an independent evaluator',
    'C08': 'bounded-exhaustive enumeration of trees, keys and filters on the real code, against an independent evaluator',
    'C09': 'bounded-exhaustive enumeration of label sets, orders, orientations and flags on the real code',
    'C10': 'stateless model checking of all operation sequences to a depth, on the real code, against a reference model',
    'C11': 'stateless model checking of all operation sequences to a depth, on the real code, against a freshly built model',
    'C12': 'stateless model checking of all operation pairs on originals and copies, on the real code',
    'C13': 'stateless model checking of all construction sequences to a depth, on the real code, against a reference tree',
    'C14': 'stateless model checking of all operation sequences to a depth, on the real code, against a reference model',
    'C15': 'bounded-exhaustive enumeration of key tables and key modes on the real code, against a nested-loop join',
    'C16': 'bounded-exhaustive enumeration of key tables, reductions and types on the real code, against a nested-loop reduction',
    'C17': 'stateless model checking of all row-operation sequences to a depth, on the real code, against a row-identity oracle',
    'C18': 'stateless model checking of all index/change/refresh histories to a depth, on the real code, against a reference model',
    'C19': 'bounded-exhaustive enumeration of the expression grammar on the real code, against an independent evaluator',
    'C20': 'bounded-exhaustive enumeration of pivot specifications on the real code, against plain pandas',
    'C21': 'stateless model checking of all fill-operation histories to a depth, on the real code, against a reference model',
    'C22': 'stateless model checking of all operation pairs with every kind of data and an interposed modification, on the real code',
    'C23': 'bounded-exhaustive enumeration of vocabularies, representations and literals on the real code',
    'C24': 'stateless model checking of all sequences of table operations to a depth, on the real code, against plain pandas and a join by dictionaries',
    'C26': 'stateless model checking of all schedules of two threads up to a bounded number of preemptions, on the real code under a controlled scheduler',
    'C25': 'stateless model checking of all operation sequences to a depth, on the real code, against a reference model',
}


def meta(path):
    text = open(path).read()
    return eval(re.search(r'^META = (\{.*?^\})', text, re.S | re.M).group(1))


def main():
    props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, missing = [], []
    for p in props:
        path = os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')
        if not os.path.exists(path):
            missing.append({'property': p['id'], 'reason': 'Model checking applies, but the check has not been built yet.'})
            continue
        m = meta(path)
        checks.append({
            'property': p['id'],
            'quick_cmd': f"./check.sh {p['id']}",
            'thorough_cmd': f"./check.sh {p['id']} --tier thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': TECHNIQUE[p['id']],
            'level': 'model_checking',
            'level_note': 'Exhaustive within: ' + m['bounds']['quick'] + '. Assumes: ' + '; '.join(m.get('assumptions', ['nothing'])) + '.',
        })
    out = {'version': 1, 'setup_cmd': 'chmod +x check.sh && /opt/venv/bin/python -c "import numba, numpy, pandas, numexpr"',
           'checks': checks, 'not_applicable': missing}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
