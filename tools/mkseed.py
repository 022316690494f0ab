#!/usr/bin/env python3
"""Plants a bug in a scratch copy, confirms it, and stores it under seeded/.

usage: mkseed.py SPEC.py   (SPEC defines SEEDS: list of dicts with id, property,
needs, breaks, edits [(file, old, new)], demo (python source))
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, concurrent.futures
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
# exit 0: the property holds on the code in the current directory
here=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 HOME="$s" OMP_NUM_THREADS=1 SCRATCH="$s"
export THEANO_FLAGS="compiledir=$s/theano,cxx=,device=cpu,optimizer=fast_compile"
/opt/venv/bin/python -W ignore "$here/demo.py"
'''


def one(seed):
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        r = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        for f, old, new in seed['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return seed['id'], 'edit of %s matches %d times' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        sd = os.path.join(d, 's')
        os.makedirs(sd)
        open(os.path.join(sd, 'demo.py'), 'w').write(seed['demo'])
        open(os.path.join(sd, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
        demo = lambda cwd: subprocess.run(['bash', os.path.join(sd, 'demo.sh')], cwd=cwd, capture_output=True, text=True, timeout=280)
        a = demo(r)
        subprocess.run(['git', 'stash', '-q'], cwd=r, check=True)
        b = demo(r)
        subprocess.run(['git', 'stash', 'pop', '-q'], cwd=r, check=True)
        if b.returncode != 0: return seed['id'], 'demo fails on the unchanged tree: ' + b.stdout[-500:] + b.stderr[-1500:]
        if a.returncode == 0: return seed['id'], 'demo passes with the patch'
        out = os.path.join(d, 'o.json')
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + r)
        open(os.path.join(d, 't.sh'), 'w').write(t)
        env = dict(os.environ, PYTHONPATH=r)
        subprocess.run(['bash', os.path.join(d, 't.sh'), out], env=env, capture_output=True, text=True)
        res = json.load(open(out))
        passed = set(res.get('passed', [])) if isinstance(res.get('passed'), list) else {k for k, v in res.items() if v == 'passed'}
        miss = STABLE - passed
        if miss: return seed['id'], 'tests fail: %s' % sorted(miss)[:4]
        dst = os.path.join(HERE, 'seeded', seed['id'])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        for f in ('demo.py', 'demo.sh'): shutil.copy(os.path.join(sd, f), dst)
        json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        return seed['id'], 'ok: ' + (a.stdout + a.stderr).strip().split('\n')[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


seeds = runpy.run_path(sys.argv[1])['SEEDS']
if len(sys.argv) > 2: seeds = [s for s in seeds if s['id'] in sys.argv[2:]]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, seeds): print(i, m, flush=True)
