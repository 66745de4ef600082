"""Runs in the project's own interpreter (/opt/venv) against the real package in /repo.
usage: replay.py REQUEST.json OUT.json
REQUEST: {"jobs": [{"cid":..., "values": {...}, "label":..., "mode": "cand"|"witness"|"gap", ...}]}"""
import importlib
import json
import os
import re
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')

import numpy as np                                           # noqa: E402
np.seterr(all='ignore')
from engine.case import CASES, RealH, Skip, flat             # noqa: E402


def load_harness():
    d = os.path.join(HERE, 'harness')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('harness.' + f[:-3])


def importer(name):
    return importlib.import_module(name)


def cplx(v):
    a = np.asarray(v)
    if a.dtype.kind in 'iufcb':
        return [[float(x.real), float(x.imag)] for x in a.astype(complex).reshape(-1)]
    return None


def run(job):
    case = CASES[job['cid']]
    h = RealH(case, job['values'], importer)
    out = dict(cid=job['cid'], label=job.get('label'), mode=job.get('mode'), values=job['values'])
    stage = 'body'
    try:
        case.body(h)
        stage = 'laws'
        if case.laws is not None:
            case.laws(h)
    except Skip as e:
        out['skip'] = str(e)
        return out
    except Exception as e:
        out['exc'] = f'{type(e).__name__}: {e}'
        out['stage'] = stage
        out['tb'] = traceback.format_exc(limit=-6)
    out['fails'] = [[a, b] for a, b in h.fails]
    out['checked'] = h.checked
    if job.get('mode') == 'witness':
        out['store'] = {}
        for k, v in h.store.items():
            try:
                c = cplx(v)
                if c is not None:
                    out['store'][k] = c
            except Exception:
                pass
    return out


def main():
    with open(sys.argv[1]) as f:
        req = json.load(f)
    load_harness()
    from engine import native
    repo, libs, tmp = os.environ.get('GEOANA_REPO', '/repo'), req.get('libs', {}), None
    need = {CASES[j['cid']].opts['native'] for j in req['jobs'] if CASES[j['cid']].opts.get('native')}
    if need - set(libs):
        import tempfile
        tmp = tempfile.mkdtemp(prefix='geoana_native_')
        libs = native.build(repo, tmp, sorted(need))
    native.install(repo, libs)
    res = []
    for job in req['jobs']:
        try:
            res.append(run(job))
        except Exception as e:
            res.append(dict(cid=job['cid'], label=job.get('label'), error=f'{type(e).__name__}: {e}', tb=traceback.format_exc()))
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f)
    if tmp:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
