"""Writes MANIFEST.json: a check for every property that has a harness, a reason for every other one."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
}
PY = '/opt/venv/bin/python -B'
checks, na = [], []
for p in props:
    i = p['id']
    if i not in NA and os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd=f'{PY} check.py {i} --tier quick', thorough_cmd=f'{PY} check.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the real Python source (instrumented on load) with path exploration and SAT/SMT (z3) verdicts over all inputs in the bounds',
            level='model_checking',
            level_note='Exhaustive over every value of the symbolic inputs within the bounds listed per task in the evidence; every counterexample is replayed on the unmodified code before it is reported. '
                       'Trusted: the symbolic engine in symx/ (cross-checked on every run by replaying solver-chosen inputs of each task on the uninstrumented code and comparing all observed values), z3, and the reference definitions in harness/.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd=f'{PY} tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks: the code under test is instrumented in memory from /repo at every run. Repairs made in /repo are listed in known_findings.txt.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'claimed;', [d['property'] for d in na], 'not')
