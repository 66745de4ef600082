"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and the registered cases."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import P, NA                      # noqa: E402
for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
    if f.endswith('.py') and not f.startswith('_'):
        importlib.import_module('harness.' + f[:-3])
from engine.case import CASES                      # noqa: E402

have = {c.prop for c in CASES.values() if c.tier == 'quick'} - set(sys.argv[1:])
missing = have - set(P)
assert not missing, missing
TECH = 'symbolic execution of the current source, obligations decided by z3 (exact real arithmetic), counterexamples replayed'
checks = []
for pid, p in P.items():
    if pid not in have or pid in NA:
        continue
    cs = [c for c in CASES.values() if c.prop == pid]
    native = sorted({c.opts['native'] for c in cs if c.opts.get('native')})
    tech = TECH + ('; compiled kernels encoded from their LLVM IR' if native else '')
    note = ('Bounded symbolic checking over exact reals: for each of %d cases (quick %d) z3 shows the negated law unsatisfiable on every '
            'feasible path, for every value of the symbolic inputs within the bounds listed in the evidence file. Trusted: the numpy/scipy '
            'models of engine/symnp.py (cross-checked against the real package on solver-found inputs every run), the normal-form '
            'rewriting of special functions (engine/nf.py) and z3. Outside: floating-point round-off, overflow, larger arrays.'
            % (len(cs), sum(c.tier == 'quick' for c in cs)))
    checks.append(dict(property=pid, quick_cmd=f'python3-vt check.py {pid} --tier quick', thorough_cmd=f'python3-vt check.py {pid} --tier thorough',
                       evidence_file=f'evidence/{pid}.json', technique=tech, level='other', level_note=note))
claimed = [c['property'] for c in checks]
na = [dict(property=k, reason=v) for k, v in NA.items() if k in P]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for pid in sorted(P):
        if pid in claimed or pid in NA:
            f.write(json.dumps(P[pid]) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sympy, mpmath, numpy" && mkdir -p evidence', checks=checks, not_applicable=na,
                   hooks=dict(guard='none', enable='no hooks: the checks execute the unmodified source', source_commits=[]),
                   notes='One driver (check.py) decides every property; see DESIGN.md.'), f, indent=1)
    f.write('\n')
import jsonschema                                  # noqa: E402
jsonschema.validate(json.load(open(os.path.join(HERE, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    jsonschema.validate(d, sc)
    assert d['statement'].count('. ') <= 2, d['id']
print('claimed', claimed, 'na', [x['property'] for x in na])
