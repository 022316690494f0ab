#!/usr/bin/env python3
"""Check driver: python3-vt check.py <property> [quick|thorough]

1. Generates the verification conditions of every function under contract for
   the property from the current sources in /repo and discharges them.
2. Runs the contracts' executable reading (harness/pXX.py) against the real
   code: it replays failures on concrete inputs, and it is the bounded
   stand-in for functions that the verifier could not bring within reach.
"""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def run_proofs(pid, tier, scratch):
    from pyvc import verify
    from pyvc.repo import Repo
    try:
        mod = importlib.import_module('contracts.' + pid.lower())
    except ModuleNotFoundError:
        return None, []
    worlds = mod.world()
    worlds = worlds if isinstance(worlds, list) else [worlds]
    budget = getattr(mod, 'BUDGET', 240) * (1 if tier == 'quick' else 2)
    t1, t2 = (4000, 15000) if tier == 'quick' else (10000, 40000)
    jobs = []
    for wi, w in enumerate(worlds):
        for key, c in w.contracts.items():
            if not c.assume_only:
                jobs.append((wi, key))
    jobs.sort(key=lambda j: -worlds[j[0]].contracts[j[1]].opts.get('cost', 0))
    for wi, w in enumerate(worlds):
        for l in w.lemmas: jobs.append((wi, l))

    def work(i):
        wi, key = jobs[i]
        w = worlds[wi]
        if isinstance(key, tuple):
            r = verify.verify_lemma(Repo(), w, key, t1, t2)
            r.key = 'lemma ' + key[0]
            with open(os.path.join(scratch, 'r%d.tmp' % i), 'wb') as f:
                pickle.dump(r, f)
            os.rename(os.path.join(scratch, 'r%d.tmp' % i), os.path.join(scratch, 'r%d' % i))
            return
        c = w.contracts[key]
        r = verify.verify_contract(Repo(), w, c, budget=c.opts.get('budget', budget), t1=c.opts.get('t1', t1), t2=t2)
        r.key = key
        with open(os.path.join(scratch, 'r%d.tmp' % i), 'wb') as f:
            pickle.dump(r, f)
        os.rename(os.path.join(scratch, 'r%d.tmp' % i), os.path.join(scratch, 'r%d' % i))

    ctx = mp.get_context('fork')
    running, nxt, done = {}, 0, 0
    slots = max(1, (os.cpu_count() or 4) - 1)
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < slots:
            p = ctx.Process(target=work, args=(nxt,))
            p.start()
            running[nxt] = (p, time.time())
            nxt += 1
        time.sleep(0.05)
        for i in list(running):
            p, t0 = running[i]
            lim = (200 if isinstance(jobs[i][1], tuple) else worlds[jobs[i][0]].contracts[jobs[i][1]].opts.get('budget', budget)) + 60
            if not p.is_alive():
                p.join()
                del running[i]
            elif time.time() - t0 > lim:
                p.kill()
                p.join()
                del running[i]
    out = []
    for i, (wi, key) in enumerate(jobs):
        f = os.path.join(scratch, 'r%d' % i)
        if os.path.exists(f):
            r = pickle.load(open(f, 'rb'))
        else:
            key = key[0] if isinstance(key, tuple) else key
            r = verify.FnResult(key)
            r.status, r.detail, r.key = 'unknown', 'the verifier did not finish', key
        out.append(r)
    assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    for w in worlds:
        for key, c in w.contracts.items():
            if c.assume_only:
                assumptions.append('assumed contract, not checked here: %s%s' % (c.spec, ' (%s)' % c.note if c.note else ''))
    return out, assumptions


def run_harness(pid, tier, seed, scratch, focus=None):
    path = os.path.join(HERE, 'harness', pid.lower() + '.py')
    if not os.path.exists(path):
        return None
    out = os.path.join(scratch, 'harness.json')
    env = harness_env(scratch)
    secs = 60 if tier == 'quick' else 300
    cmd = ['/opt/venv/bin/python', path, '--seed', str(seed), '--secs', str(secs), '--tier', tier, '--out', out]
    try:
        p = subprocess.run(cmd, env=env, cwd=scratch, capture_output=True, text=True, timeout=secs * 3 + 200)
        err = p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        return {'error': 'harness timed out', 'cases': 0, 'violations': []}
    if not os.path.exists(out):
        return {'error': 'harness failed: ' + err, 'cases': 0, 'violations': []}
    return json.load(open(out))


def harness_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8', HOME=scratch,
               THEANO_FLAGS='compiledir=%s/theano,cxx=,device=cpu,optimizer=fast_compile' % scratch,
               NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL')
    return env


def known(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        from pyvc import verify
        from pyvc.repo import Repo
        assert Repo().find('theanolm/training/trainer.py::Trainer.train') is not None
        print('verifier loads')
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    try:
        proofs, assumptions = run_proofs(pid, tier, scratch)
        harness = run_harness(pid, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    proofs = proofs or []
    failed, undecided = [], []
    for r in proofs:
        if r.status == 'failed': failed.append(r)
        elif r.status != 'ok': undecided.append(r)
    kf = known(pid)
    hv = (harness or {}).get('violations', [])
    new = [v for v in hv if not any(v.get('key') and v['key'] == k.split(' ')[0] for k in kf)]
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    nviol = 0
    replay = os.path.join(HERE, 'replays', pid + '.json')
    fo = [{'function': r.spec, 'obligation': o['name'], 'verdict': o['verdict'], 'solver': o['backend'],
           'counter_model': o.get('model')} for r in failed for o in r.obls if o['verdict'] in ('sat', 'saturated')]
    if new:
        json.dump({'property': pid, 'kind': 'failing input', 'seed': seed, 'cases': new[:5], 'failed_obligations': fo[:20],
                   'how': 'PYTHONPATH=/repo /opt/venv/bin/python %s/harness/%s.py --replay %s' % (HERE, pid.lower(), replay)},
                  open(replay, 'w'), indent=1)
        print('failing input: ' + json.dumps(new[0])[:1500])
        for f in fo[:5]: print('failed obligation: %s: %s' % (f['function'], f['obligation']))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        nviol = len(new)
    elif failed:
        json.dump({'property': pid, 'kind': 'failed obligation', 'failed_obligations': fo}, open(replay, 'w'), indent=1)
        for f in fo[:5]: print('failed obligation: %s: %s [%s by %s]' % (f['function'], f['obligation'], f['verdict'], f['solver']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        nviol = len(fo)
    for r in undecided:
        print('undecided by the verifier (bounded stand-in decides): %s: %s %s' % (r.spec, r.status, r.detail or ''))
    nobl = sum(len(r.obls) for r in proofs)
    ndis = sum(1 for r in proofs for o in r.obls if o['verdict'] == 'unsat')
    backends = {}
    for r in proofs:
        for o in r.obls:
            if o['verdict'] == 'unsat': backends[o['backend']] = backends.get(o['backend'], 0) + 1
    inl = sorted({q for r in proofs for q in r.inlined})
    ext = sorted({q for r in proofs for q in r.externals})
    skp = sorted({q for r in proofs for q in r.skipped})
    level = 'proof' if proofs else 'exploration'
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
            'trusted_base': ['pyvc (VC generator over the Python AST, /verif/pyvc)', 'z3 5.3.2', 'cvc5 1.1.2',
                             'the semantics given to built-ins and numpy in pyvc/builtinsmixin.py'],
            'functions_under_contract': [{'function': getattr(r, 'key', r.spec), 'status': r.status, 'detail': r.detail, 'obligations': len(r.obls),
                                          'discharged': sum(1 for o in r.obls if o['verdict'] == 'unsat'),
                                          'paths': r.paths, 'solver_s': round(r.solver_s, 2), 'vacuity': r.vacuity} for r in proofs],
            'functions_inlined': inl, 'external_functions_modelled': ext, 'calls_dropped': skp,
            'discharged_by': backends, 'solver_s': round(sum(r.solver_s for r in proofs), 2),
            'undecided_functions': [r.spec for r in undecided],
            'bounded_runtime_contracts': {'evaluations': (harness or {}).get('cases', 0), 'rule': (harness or {}).get('rule'),
                                          'by_kind': (harness or {}).get('kinds'), 'inapplicable': (harness or {}).get('inapplicable'),
                                          'error': (harness or {}).get('error'),
                                          'label': 'bounded, not counted as proved'},
        },
        'assumptions': assumptions + (['integers and reals are mathematical; float rounding is not modelled',
                                       'strings are compared as abstract values; string functions are uninterpreted',
                                       'termination is proved only where a decreases clause is given'] if proofs else []),
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    if harness and harness.get('samples'): ev['coverage']['samples'] = harness['samples'][:3]
    if level == 'exploration':
        ev['coverage']['evaluations'] = (harness or {}).get('cases', 0)
        ev['coverage']['distinct_nontrivial'] = (harness or {}).get('distinct', 0)
        ev['coverage']['rule'] = (harness or {}).get('rule') or ''
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d functions (%d failed, %d undecided); %d runtime cases; %.1f s' % (
        pid, ndis, nobl, len(proofs), len(failed), len(undecided), (harness or {}).get('cases', 0), time.time() - t0))
    sys.exit(1 if nviol else 0)


if __name__ == '__main__':
    main()
