"""mkseed.py ID...: (re)creates /verif/seeded/<ID> from tools/seeds.py and validates it in /repo:
applies the edit, builds, runs the stable tests, the demo and the property's check; then undoes it."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.seeds import SEEDS      # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(ids):
    st = sh('git -C /repo status --porcelain').stdout
    assert not st.strip(), st
    notest = '--notest' in ids
    ids = [i for i in ids if not i.startswith('--')] or list(SEEDS)
    rep = []
    for sid in ids:
        s = SEEDS[sid]
        d = os.path.join(HERE, 'seeded', sid)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s['edits']:
                p = '/repo/' + f
                t = open(p).read()
                n = s.get('count', 1)
                assert t.count(old) == n, (sid, f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n. /opt/vp/env.sh >/dev/null 2>&1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            out = [sid]
            b = sh('bash /opt/vp/build.sh', cwd='/repo')
            out.append('build ' + ('ok' if b.returncode == 0 else 'FAIL'))
            if not notest:
                sh('bash /opt/vp/test.sh /tmp/seedtest.json', cwd='/repo')
                t = json.load(open('/tmp/seedtest.json'))
                base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                miss = base - set(t['passed'])
                out.append('tests ok' if not miss else f'tests BROKEN {sorted(miss)[:3]}')
            r = sh(f'bash {d}/demo.sh', cwd='/repo')
            out.append(f'demo {r.returncode}' + ('' if r.returncode else ' (NOT DETECTED BY DEMO)'))
            c = sh(f'python3-vt check.py {s["property"]} --tier quick', cwd=HERE)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append(f'check exit {c.returncode} {"CAUGHT" if c.returncode == 1 and v else "MISSED"}')
            if not v:
                out.append(c.stdout[-1500:])
            else:
                out.append([l for l in c.stdout.splitlines() if 'law ' in l][0][:160])
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh', cwd='/repo')
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        out.append(f'clean demo {r.returncode}' + (' BAD ' + r.stderr[-600:] if r.returncode else ''))
        print(' | '.join(out), flush=True)


main(sys.argv[1:])
