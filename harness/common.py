"""Executable reading of the contracts: runs the real code of /repo on
generated inputs and compares with the specification oracle."""
import argparse
import json
import os
import random
import sys
import tempfile
import time
import traceback
import warnings

warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True


class Skip(Exception):
    """The case does not apply."""


class Violation(Exception):
    def __init__(self, what, **info):
        super().__init__(what)
        self.what, self.info = what, info


def check(cond, what, **info):
    if not cond:
        raise Violation(what, **info)


def close(a, b, tol=1e-4):
    if a == b: return True
    if a is None or b is None: return False
    if a != a or b != b: return a != a and b != b
    if abs(a) == float('inf') or abs(b) == float('inf'): return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Runner:
    def __init__(self, rule=''):
        self.kinds = []
        self.rule = rule

    def kind(self, name, gen, run, weight=1, fixed=(), n=None):
        """gen(rng) -> JSON-able case; run(case) raises Violation when broken."""
        self.kinds.append((name, gen, run, weight, list(fixed), n))

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--seed', type=int, default=1)
        ap.add_argument('--secs', type=float, default=60)
        ap.add_argument('--tier', default='quick')
        ap.add_argument('--out')
        ap.add_argument('--replay')
        ap.add_argument('--kind')
        a = ap.parse_args()
        res = {'cases': 0, 'distinct': 0, 'violations': [], 'kinds': {}, 'inapplicable': {}, 'samples': [], 'rule': self.rule}
        if a.replay:
            rep = json.load(open(a.replay))
            bad = 0
            for c in rep.get('cases', []):
                for (name, gen, run, w, fixed, n) in self.kinds:
                    if name == c['kind']:
                        v = self.one(name, run, c['case'], {'inapplicable': {}})
                        print(name, 'VIOLATED: ' + json.dumps(v)[:2000] if v else 'holds')
                        bad += bool(v)
            sys.exit(1 if bad else 0)
        kinds = [k for k in self.kinds if not a.kind or k[0] == a.kind]
        tot = sum(k[3] for k in kinds)
        seen = set()
        for ki, (name, gen, run, weight, fixed, n) in enumerate(kinds):
            rng = random.Random('%d/%s' % (a.seed, name))
            share = a.secs * weight / tot
            t0 = time.time()
            done = 0
            maxn = n * (1 if a.tier == 'quick' else 10) if n else 10 ** 9
            stop = 0
            it = iter(fixed)
            while (time.time() - t0 < share and done < maxn) or done < len(fixed):
                case = next(it, None)
                if case is None:
                    try:
                        case = gen(rng)
                    except Skip:
                        continue
                v = self.one(name, run, case, res)
                done += 1
                try:
                    s = json.dumps(case, sort_keys=True, default=str)
                except TypeError:
                    s = str(case)
                seen.add((name, s))
                if done == 2: res['samples'].append({'kind': name, 'case': json.loads(s) if len(s) < 800 else s[:800]})
                if v:
                    res['violations'].append(v)
                    stop += 1
                    if stop >= 3: break
                if res['inapplicable'].get(name, 0) and isinstance(res['inapplicable'].get(name), str) and done > 5:
                    break
            res['kinds'][name] = done
            res['cases'] += done
        res['distinct'] = len(seen)
        # smallest failing inputs first
        res['violations'].sort(key=lambda v: len(json.dumps(v, default=str)))
        if a.out:
            json.dump(res, open(a.out, 'w'), default=str)
        for v in res['violations'][:5]:
            print(json.dumps(v, default=str)[:3000])
        print({k: res[k] for k in ('cases', 'distinct', 'kinds', 'inapplicable')}, '%d violations' % len(res['violations']))

    def one(self, name, run, case, res):
        try:
            run(case)
            return None
        except Skip:
            return None
        except Violation as v:
            return {'kind': name, 'case': case, 'what': v.what, 'info': {k: _js(x) for k, x in v.info.items()}, 'key': v.info.get('key')}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, UnicodeDecodeError) and 'h5py' in tb[-1].filename and not getattr(self, '_again', 0) > 20:
                # this h5py build formats a failed open with a freed buffer; unrelated to the code under test
                self._again = getattr(self, '_again', 0) + 1
                try:
                    return self.one(name, run, case, res)
                finally:
                    self._again -= 1
            inner = [f for f in tb]
            # Blame the code under test only if the exception arises inside it
            # (or below it, in a library it called).
            repo = [i for i, f in enumerate(tb) if '/theanolm/' in f.filename and '/repo/' in f.filename]
            harn = [i for i, f in enumerate(tb) if '/harness/' in f.filename]
            if repo and (not harn or max(repo) > max(harn)):
                return {'kind': name, 'case': case, 'what': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                        'info': {'at': '%s:%d %s' % (tb[-1].filename, tb[-1].lineno, tb[-1].name)}, 'key': None}
            res['inapplicable'][name] = '%s: %s @ %s:%d' % (type(e).__name__, str(e)[:200], tb[-1].filename, tb[-1].lineno)
            return None


def _js(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        try:
            return x.tolist()
        except Exception:
            return str(x)[:500]


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
