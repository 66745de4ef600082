#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--case NAME] [-v]

Symbolically executes the current source in /repo for every case of the property, lets z3
decide the obligations, replays every counterexample on the real package.
exit 0: no violation on anything explored (UNDECIDED lines name obligations that the solver could not
        settle; they are recorded in the evidence as undecided, never as discharged)
exit 1: VIOLATION (reproduced on the real code)
exit 2: no answer: not one obligation was discharged, or the real package could not be run;
        with --strict: anything at all left undecided"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
REPO = os.environ.get('GEOANA_REPO', '/repo')
REPLAY_PY = os.path.join(HERE, 'engine', 'replay.py')


def load_harness():
    d = os.path.join(HERE, 'harness')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('harness.' + f[:-3])


def worker(cid, seed, path, verbose, tmo):
    import faulthandler
    import resource
    import threading
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.RLIM_INFINITY))
    except Exception:
        pass
    threading.stack_size(512 << 20)
    sys.setrecursionlimit(200000)
    out = {}

    def dump(res):
        # what a killed worker has found so far
        tmp = path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(dict(cid=cid, candidates=res['candidates']), f)
        os.replace(tmp, path + '.part')

    def go():
        try:
            from engine.run import run_case
            out['res'] = run_case(cid, seed=seed, log=(lambda s: print(s, flush=True)) if verbose else None, timeout_ms=tmo, dump=dump)
        except BaseException as e:
            import traceback
            out['res'] = dict(cid=cid, crash=f'{type(e).__name__}: {e}', tb=traceback.format_exc(limit=-8))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    with open(path + '.tmp', 'w') as f:
        json.dump(out['res'], f)
    os.replace(path + '.tmp', path)


def partial(path, cid, why):
    cands = []
    if os.path.exists(path + '.part'):
        with open(path + '.part') as f:
            cands = json.load(f)['candidates']
    return dict(cid=cid, crash=why, candidates=cands)


def run_all(cids, seed, scratch, verbose, jobs, limit, tmo, deadline, confirm=None):
    """confirm(candidates) replays counterexamples found so far; once one is reproduced on the real code the
    remaining cases are not needed any more (the verdict is exit 1 whatever they say)."""
    tried, t_last, gap = set(), time.time(), 6.0
    ctx = mp.get_context('fork')
    todo = list(cids)
    live = {}
    results = {}
    while todo or live:
        while todo and len(live) < jobs:
            cid = todo.pop(0)
            path = os.path.join(scratch, cid.replace('/', '__') + '.json')
            p = ctx.Process(target=worker, args=(cid, seed, path, verbose, tmo))
            p.start()
            live[cid] = (p, path, time.time())
        for cid in list(live):
            p, path, t0 = live[cid]
            p.join(0.02)
            if not p.is_alive():
                if os.path.exists(path):
                    with open(path) as f:
                        results[cid] = json.load(f)
                else:
                    results[cid] = dict(cid=cid, crash=f'worker died, exit code {p.exitcode}')
                del live[cid]
            elif time.time() - t0 > limit or time.time() > deadline:
                p.kill()
                p.join()
                results[cid] = partial(path, cid, f'time limit {limit}s')
                del live[cid]
        time.sleep(0.01)
        if confirm is not None and live and time.time() - t_last > gap:
            t_last = time.time()
            new = []
            for cid in list(results) + list(live):
                rs = results[cid] if cid in results else partial(live[cid][1], cid, '')
                for c in rs.get('candidates', []):
                    key = (cid, json.dumps(c, sort_keys=True))
                    if key not in tried:
                        tried.add(key)
                        new.append((cid, c))
            if new:
                if confirm(new):
                    for cid, (p, path, _) in live.items():
                        p.kill()
                        p.join()
                        results[cid] = partial(path, cid, 'stopped: a violation of another obligation was already reproduced')
                    for cid in todo:
                        results[cid] = dict(cid=cid, crash='not run: a violation was already reproduced')
                    return results
                gap = min(60.0, gap * 2)
    return results


class NativeBuild:
    """background build of the extensions (fresh, from the current source) for replay."""

    def __init__(self, names, scratch):
        self.names, self.dir, self.p = sorted(names), os.path.join(scratch, 'native'), None
        self.out = None
        if names:
            os.makedirs(self.dir)
            code = f'import sys; sys.path.insert(0, {HERE!r}); from engine import native; ' \
                   f'native.build({REPO!r}, {self.dir!r}, {self.names!r})'
            self.p = subprocess.Popen(['bash', '-c', f'. /opt/vp/env.sh >/dev/null 2>&1; exec {PY} -c "{code}"'], stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))

    def libs(self):
        if self.p is None:
            return {}
        if self.out is None:
            self.out, _ = self.p.communicate()
        if self.p.returncode:
            raise RuntimeError('native build failed: ' + self.out[-1500:])
        return {n: os.path.join(self.dir, n + '.so') for n in self.names}


def replay_grouped(jobs, CASES, scratch, nat):
    """jobs of native cases run with the fresh extension build, the others without extensions."""
    res = [None] * len(jobs)
    for flag in (False, True):
        idx = [i for i, j in enumerate(jobs) if bool(CASES[j['cid']].opts.get('native')) == flag]
        if not idx:
            continue
        r = replay([jobs[i] for i in idx], scratch, 'nat' if flag else 'py', nat.libs() if flag else {})
        if isinstance(r, dict):
            return r
        for i, x in zip(idx, r):
            res[i] = x
    return res


def replay(jobs, scratch, tag, libs=None):
    if not jobs:
        return []
    req = os.path.join(scratch, f'req_{tag}.json')
    out = os.path.join(scratch, f'out_{tag}.json')
    if os.path.exists(out):
        os.remove(out)
    with open(req, 'w') as f:
        json.dump(dict(jobs=jobs, libs=libs or {}), f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    env.pop('PYTHONPATH', None)
    p = subprocess.run(['bash', '-c', f'. /opt/vp/env.sh >/dev/null 2>&1; cd {scratch}; exec {PY} {REPLAY_PY} {req} {out}'],
                       env=env, capture_output=True, text=True, timeout=800)
    if not os.path.exists(out):
        return dict(error=(p.stdout[-1500:] + p.stderr[-3000:]))
    with open(out) as f:
        return json.load(f)


def base(label):
    return (label or '').split('[')[0]


def close(sym, real, floor=0.0):
    """translator validation: list of (re, im) pairs."""
    if len(sym) != len(real):
        return False
    mx = max([abs(complex(*x)) for x in sym if x == x and all(t == t and abs(t) != float('inf') for t in x)] or [0.0])
    for s, r in zip(sym, real):
        a, b = complex(*s), complex(*r)
        if a != a or b != b:
            if (a != a) != (b != b):
                return False
            continue
        if a == b:
            continue
        if not abs(a - b) <= 1e-6 * max(abs(a), 1e-3 * mx) + 1e-12 * floor:
            return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--case', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    load_harness()
    import engine.run      # noqa: F401  (import once, before forking)
    from engine.case import CASES
    prop = a.prop
    cids = [c.cid for c in CASES.values() if c.prop == prop and c.tier != 'finding' and (tier == 'thorough' or c.tier == 'quick')
            and (a.case is None or a.case in c.name)]
    if not cids:
        print(f'no case for {prop}')
        return 2
    # long cases first
    cids.sort(key=lambda c: -CASES[c].opts.get('cost', 1))
    scratch = tempfile.mkdtemp(prefix=f'geoana_{prop}_')
    try:
        return go(a, prop, tier, seed, t0, cids, CASES, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def go(a, prop, tier, seed, t0, cids, CASES, scratch):
    need = {n for c in cids for n in ([CASES[c].opts['native']] if CASES[c].opts.get('native') else [])}
    nat = NativeBuild(need, scratch)
    if need:
        from engine import ir
        try:
            os.makedirs(os.path.join(scratch, 'ir'))
            ir.prepare(os.path.join(scratch, 'ir'))
        except Exception as e:
            print('ERROR', e)
    limit = 420 if tier == 'quick' else 1500
    deadline = t0 + (760 if tier == 'quick' else 3 * 3600)

    def confirm(new):
        try:
            real = replay_grouped([dict(cid=cid, label=c['label'], values=c['values'], mode='cand') for cid, c in new[:60]],
                                  CASES, scratch, nat)
        except RuntimeError:
            return False
        if isinstance(real, dict):
            return False
        return any('error' not in r and 'skip' not in r and ('exc' in r or any(base(f[0]) == base(c['label']) for f in r.get('fails', [])))
                   for (cid, c), r in zip(new, real))
    results = run_all(cids, seed, scratch, a.v, a.jobs, limit, 20000 if tier == 'quick' else 60000, deadline, confirm)
    known = load_known()
    jobs = []
    for cid in cids:
        r = results[cid]
        c = CASES[cid]
        for cand in r.get('candidates', []):
            jobs.append(dict(cid=cid, label=cand['label'], values=cand['values'], why=cand['why'], soft=cand.get('soft', False), mode='cand'))
        for g in r.get('gaps', []):
            for v in g[2]:
                jobs.append(dict(cid=cid, label=None, values=v, why=g[0], mode='gap'))
        for i, w in enumerate(r.get('witnesses', [])):
            jobs.append(dict(cid=cid, label=None, values=w['values'], mode='witness', wi=i))
        for u in r.get('undecided_inputs', []):
            jobs.append(dict(cid=cid, label=None, values=u, mode='gap', why='undecided'))
    kjobs = [dict(cid=k['case'], label=k['label'], values=k['values'], mode='known', k=i) for i, k in enumerate(known)
             if k['property'] == prop and k['status'] == 'known' and k['case'] in CASES]
    try:
        real = replay_grouped(jobs + kjobs, CASES, scratch, nat)
    except RuntimeError as e:
        real = dict(error=str(e))
    errors, viols, notes = [], [], []
    validated = 0
    reproduced = {}
    if isinstance(real, dict):
        # the real package did not even import / the replay driver died
        errors.append('replay: ' + real['error'])
        real = []
        replay_dead = True
    else:
        replay_dead = False
    wit_bad, wit_ok = {}, set()
    for job, r in zip(jobs, real):
        cid = job['cid']
        if 'error' in r:
            errors.append(f'{cid}: replay error {r["error"]}')
            continue
        fails = r.get('fails', [])
        ok = None
        if 'skip' in r:
            continue
        if job['mode'] == 'cand':
            if 'exc' in r:
                ok = ('raises', r['exc'])
            else:
                for lab, msg in fails:
                    if base(lab) == base(job['label']) or job['label'] == 'raises':
                        ok = (lab, msg)
                        break
            if job['soft'] and ok is None:
                reproduced.setdefault((cid, base(job['label'])), 'soft')
        elif job['mode'] == 'gap':
            if 'exc' in r and not CASES[cid].opts.get('may_raise'):
                ok = ('raises', r['exc'])
            elif fails:
                ok = tuple(fails[0])
        elif job['mode'] == 'witness':
            if 'exc' in r and r['stage'] == 'body':
                ok = ('raises', r['exc'])
            elif 'exc' in r:
                errors.append(f'{cid}: law raised on the real package: {r["exc"]} {r["tb"]}')
            elif fails:
                ok = tuple(fails[0])
            else:
                st = results[cid]['witnesses'][job['wi']]['store']
                floor = max([abs(x) for v in st.values() for p in v for x in p if abs(x) < 1e300] or [0.0])
                bad = [k for k in st if k in r.get('store', {}) and not close(st[k], r['store'][k], floor)]
                if bad:
                    wit_bad[cid] = f'{cid}: encoding and real code disagree on {bad[:3]} ' \
                                   f'{st[bad[0]][:3]} {r["store"][bad[0]][:3]} at {job["values"]}'
                else:
                    wit_ok.add(cid)
                    validated += len(st)
        if ok is not None:
            reproduced[(cid, base(job['label']))] = ok
            viols.append((cid, ok[0], ok[1], job['values']))
    for cid, m in wit_bad.items():
        if cid not in wit_ok and not any(v[0] == cid for v in viols):
            errors.append(m)
    kf = []
    for job, r in zip(kjobs, real[len(jobs):] if real else []):
        k = known[job['k']]
        still = 'exc' in r or any(base(f[0]) == base(k['label']) for f in r.get('fails', []))
        if still:
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
            kf.append(k['what'])
        else:
            notes.append(f'known finding no longer fails: {k["what"]}')
    tot = dict(paths=0, obligations=0, discharged=0, queries=0, solver_s=0.0, inputs=0)
    files, funcs = set(), set()
    for cid in cids:
        r = results[cid]
        if 'crash' in r:
            if 'already reproduced' not in r['crash']:
                errors.append(f'{cid}: {r["crash"]} {r.get("tb", "")}')
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        files |= set(r.get('files', []))
        funcs |= set(r.get('funcs', []))
        for g in r['gaps']:
            errors.append(f'{cid}: engine gap: {g[0]} {g[1] if a.v else ""}')
        for u in r['undecided']:
            errors.append(f'{cid}: undecided {u[0]}: {u[1]}')
        for cand in r['candidates']:
            key = (cid, base(cand['label']))
            if key not in reproduced:
                errors.append(f'{cid}: counterexample did not reproduce: {cand["label"]} ({cand["why"]}) at {cand["values"]}')
                reproduced[key] = 'unrep'
        if r['obligations'] == 0 and not r['candidates'] and not r['gaps']:
            errors.append(f'{cid}: vacuous (no reachable obligation)')
        if a.v:
            print(f'  {cid}: paths {r["paths"]} obligations {r["discharged"]}/{r["obligations"]} queries {r["queries"]} '
                  f'solver {r["solver_s"]}s wall {r["wall_s"]}s terms {r["max_terms"]} rss {r.get("rss_mb")}MB', flush=True)
    code = 0
    if viols:
        seen = set()
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, (cid, lab, msg, vals) in enumerate(viols):
            if (cid, base(lab)) in seen:
                continue
            seen.add((cid, base(lab)))
            if len(seen) > 10:
                break
            path = os.path.join(rdir, f'{prop}_{len(seen)}.json')
            with open(path, 'w') as f:
                json.dump(dict(jobs=[dict(cid=cid, label=lab, values=vals, mode='cand')], law=lab, message=msg,
                               how=f'{PY} {REPLAY_PY} {path} /dev/stdout'), f, indent=1)
            print(f'  law {lab} of case {cid}: {msg} at {vals}')
            print(f'VIOLATION property={prop} replay={path}')
        code = 1
    elif errors:
        code = 2 if a.strict or replay_dead or not tot['discharged'] else 0
    for e in errors[:20]:
        print('UNDECIDED', e)
    for n in notes:
        print('NOTE', n)
    write_evidence(prop, tier, seed, cids, CASES, results, tot, files, funcs, viols, errors, kf, validated, time.time() - t0, code)
    print(f'{prop} {tier}: cases {len(cids)} paths {tot["paths"]} obligations {tot["discharged"]}/{tot["obligations"]} '
          f'queries {tot["queries"]} solver {tot["solver_s"]:.1f}s wall {time.time() - t0:.1f}s exit {code}')
    return code


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def write_evidence(prop, tier, seed, cids, CASES, results, tot, files, funcs, viols, errors, kf, validated, wall, code):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    per = {}
    for cid in cids:
        r = results[cid]
        c = CASES[cid]
        per[cid] = dict(bounds=c.bounds, paths=r.get('paths'), obligations=r.get('obligations'), discharged=r.get('discharged'),
                        queries=r.get('queries'), unsat=r.get('q_unsat'), sat=r.get('q_sat'), unknown=r.get('q_unknown'),
                        solver_s=r.get('solver_s'), wall_s=r.get('wall_s'), reachability_witness=r.get('witness'),
                        laws=sorted({base(x) for x in r.get('labels', [])})[:60])
        if 'crash' in r:
            per[cid]['crash'] = r['crash']
    from engine.case import ASSUMPTIONS
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=round(wall, 2),
              coverage=dict(
                  explanation='bounded symbolic execution of the current /repo source (Python semantics re-executed on exact symbolic '
                              'reals, or LLVM IR for compiled kernels); every obligation negated and decided by z3 for all input values '
                              'within the stated bounds; counterexamples replayed on the real package',
                  cases=per, functions_encoded=sorted(funcs), files_encoded=sorted(files), paths=tot['paths'],
                  obligations=tot['obligations'], discharged=tot['discharged'], queries=tot['queries'],
                  solver_s=round(tot['solver_s'], 2), reachability_witnesses=tot['inputs'],
                  encoding_values_validated_against_real_code=validated, known_findings=kf, errors=errors[:20], exit_code=code),
              assumptions=ASSUMPTIONS + sorted({x for cid in cids for x in CASES[cid].opts.get('assumptions', [])}),
              violations=[dict(case=v[0], law=v[1], message=v[2], inputs=v[3]) for v in viols[:20]])
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
