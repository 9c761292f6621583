import argparse
import collections
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import env
from core import Rec, Violation
from env import HarnessError, VERIF

HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = 'exploration'
CHECK = os.path.join(VERIF, 'check.py')


def load_known():
    """Known findings: property -> list of (needle, text). Fixed entries suppress nothing."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                fields = dict(f.split('=', 1) for f in line.split(' ', 3)[1:3])
                out.setdefault(fields['property'], []).append((fields['id'], line.split(' ', 3)[3]))
    return out


# ------------------------------------------------------------------------------------------------ one job

def is_violation(exc):
    """Does this exception, which escaped from a check, speak about the code under test?"""
    if isinstance(exc, Violation):
        return True
    if isinstance(exc, (HarnessError, MemoryError, KeyboardInterrupt)):
        return False
    files = [f.filename for f in traceback.extract_tb(exc.__traceback__)]
    if any(f.startswith(env.REPO + '/') for f in files):
        return True
    last = [f for f in files if f.startswith(HERE)]
    # the check, or the reference implementation, stumbled over what the code under test gave it
    return bool(last) and not isinstance(exc, OSError) and os.path.basename(last[-1]) not in (
        'env.py', 'forked.py', 'runner.py', 'fix.py', 'algs.py', 'gen.py')


class Job:
    def __init__(self, prop, facet, shard, nshards, tier, seed, scale, shrink_s):
        self.prop, self.facet, self.shard, self.nshards = prop, facet, shard, nshards
        self.tier, self.seed, self.scale, self.shrink_s = tier, seed, scale, shrink_s
        self.rec = Rec()
        self.failure = None
        self.first_fail = None
        self.history = collections.deque(maxlen=300)

    def run_case(self, case):
        self.rec.begin()
        try:
            self.facet.check(case, self.rec)
        except Exception as e:
            if not is_violation(e):
                raise HarnessError('%s/%s: %s\ncase: %.2000r' % (self.prop, self.facet.name,
                                                               traceback.format_exc(), case)) from e
            self.note(case, e)
            raise
        finally:
            self.rec.end(case)

    def note(self, case, e):
        size = len(repr(case))
        if self.first_fail is None:
            self.first_fail = time.time()
            self.history_at_fail = list(self.history)
        if self.failure is None or size <= self.failure['size']:
            self.failure = {'facet': self.facet.name, 'case': case, 'size': size,
                            'history': self.history_at_fail,
                            'message': str(e) if isinstance(e, Violation) else
                            ''.join(traceback.format_exception(e)[-6:])}

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        # enumerated cases first
        if self.facet.enum is not None:
            cases = self.facet.enum()
            for i, case in enumerate(cases):
                if i % self.nshards != self.shard:
                    continue
                try:
                    self.run_case(case)
                except HarnessError:
                    raise
                except Exception:
                    return
                self.history.append(case)
        if self.facet.strategy is None and self.facet.driver is None:
            return
        total = self.facet.quick if self.tier == 'quick' else self.facet.thorough
        n = max(1, int(total * self.scale / self.nshards))
        seed = int.from_bytes(hashlib.sha256(
            ('%s:%s:%s:%s%s' % (self.seed, self.prop, self.facet.name, self.shard, ':O' * sys.flags.optimize)).encode()).digest()[:8], 'big')

        if self.facet.driver is not None:
            try:
                self.facet.driver(self, n, seed)
            except HarnessError:
                raise
            except Exception as e:
                if self.failure is None:
                    raise HarnessError('%s/%s: driver failed: %s' % (self.prop, self.facet.name, traceback.format_exc())) from e
                self.shrink_data()
            return

        def body(case):
            if self.first_fail is not None and time.time() - self.first_fail > self.shrink_s:
                return      # enough shrinking; the smallest failure is recorded
            self.run_case(case)
            if self.first_fail is None:
                self.history.append(case)

        test = settings(max_examples=n, database=None, deadline=None, verbosity=Verbosity.quiet,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink), print_blob=False)(
            hypothesis.seed(seed)(given(self.facet.strategy())(body)))
        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:
            if self.failure is None:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                raise HarnessError('%s/%s: generator failed: %s' % (self.prop, self.facet.name,
                                                                    traceback.format_exc())) from e

    def shrink_data(self):
        import grey

        def fails(data):
            if time.time() - self.first_fail > self.shrink_s:
                return False
            try:
                self.run_case({'data': data})
            except HarnessError:
                raise
            except Exception:
                return True
            return False
        grey.shrink(self.failure['case']['data'], fails)


def child(job, path):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = '/nonexistent'
    sys.setrecursionlimit(3000)
    err = None
    try:
        job.run()
    except BaseException:
        err = traceback.format_exc()
    out = {'facet': job.facet.name, 'evaluations': job.rec.evaluations, 'labels': job.rec.labels,
           'seen': job.rec.seen, 'samples': job.rec.samples, 'failure': job.failure, 'error': err}
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(out, f)
    os.rename(path + '.tmp', path)


def run_jobs(jobs, deadline, workers):
    tmp = tempfile.mkdtemp(prefix='verif-jobs.')
    running, results, pending, stop = {}, [], list(enumerate(jobs)), False
    killed = 0
    try:
        while (pending and not stop) or running:
            while pending and len(running) < workers and not stop:
                i, job = pending.pop(0)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        child(job, os.path.join(tmp, str(i)))
                    finally:
                        os._exit(0)
                running[pid] = (i, job)
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > deadline:
                    for p in running:
                        os.kill(p, signal.SIGKILL)
                    killed += len(running) + len(pending)
                    pending = []
                    deadline = float('inf')
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            i, job = running.pop(pid)
            p = os.path.join(tmp, str(i))
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    r = pickle.load(f)
                os.unlink(p)
                results.append(r)
                if r['failure'] and not stop:
                    stop = True
                    for q in running:
                        os.kill(q, signal.SIGKILL)
            elif not stop and deadline != float('inf'):
                results.append({'facet': job.facet.name, 'evaluations': 0, 'labels': {}, 'seen': set(), 'samples': [],
                                'failure': None, 'error': 'worker %s/%s died with status %d' % (
                                    job.facet.name, job.shard, status)})
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return results, killed


# ------------------------------------------------------------------------------------------------ replay

def write_replay(prop, failure, seed, tier):
    d = os.path.join(env.OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s%s.py' % (prop, failure['facet'], '-O' * sys.flags.optimize))
    with open(path, 'w') as f:
        f.write('# %s %s (seed %s, tier %s%s); run: check.py %s --replay <this file>\n' % (
            prop, failure['facet'], seed, tier, ', python -O' * sys.flags.optimize, prop))
        for line in failure['message'].splitlines()[:40]:
            f.write('# %s\n' % line)
        f.write(repr({'property': prop, 'facet': failure['facet'], 'case': failure['case'],
                      'history': failure.get('history', []), 'optimize': sys.flags.optimize}))
        f.write('\n')
    return path


def replay(mod, prop, path):
    text = ''.join(line for line in open(path) if not line.startswith('#'))
    data = eval(text, {'__builtins__': {}, 'inf': float('inf'), 'nan': float('nan')})
    facet = [f for f in mod.FACETS if f.name == data['facet']][0]
    if data.get('optimize') and not sys.flags.optimize:
        return subprocess.run([sys.executable, '-O', CHECK, prop, '--replay', path]).returncode

    def run(case):
        try:
            facet.check(case, Rec())
        except Exception as e:
            if not is_violation(e):
                raise
            print('facet %s: %s' % (facet.name, e if isinstance(e, Violation) else ''.join(
                traceback.format_exception(e))))
            return True
        return False
    print('case: %.4000r' % (data['case'],))
    bad = run(data['case'])
    if not bad and data['history']:
        print('(the case alone passes; replaying the %d cases that ran before it)' % len(data['history']))
        for c in data['history'] + [data['case']]:
            if run(c):
                bad = True
                break
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('the replayed case holds')
    return 0


# ------------------------------------------------------------------------------------------------ main

def without_asserts(a, left):
    """A smaller run of the same facets by python -O, which drops assert statements: a guarantee must not rest on one."""
    if left < 20:
        return 0, {'evaluations': 0, 'note': 'no time left'}, '', ''
    fd, path = tempfile.mkstemp(prefix='verif-part.')
    os.close(fd)
    try:
        r = subprocess.run([sys.executable, '-O', CHECK, a.prop, '--tier', a.tier, '--scale', str(a.scale * 0.1), '--workers',
                            str(a.workers), '--part', path],
                           env={**os.environ, 'PYCOSE_VERIF_BUDGET': str(left - 10)}, capture_output=True, text=True)
        with open(path) as f:
            text = f.read()
        got = json.loads(text) if text else None
    finally:
        os.unlink(path)
    if r.returncode not in (0, 1) or got is None:
        return r.returncode or 2, {}, r.stdout, r.stderr
    return r.returncode, {'evaluations': got['coverage']['evaluations'], 'violations': got['violations'],
                          'distinct_nontrivial': got['coverage']['distinct_nontrivial'], 'wall_s': got['wall_s']}, r.stdout, r.stderr


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--part', help='internal: write the evidence of a partial run to this file')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        env.setup()
        sys.path.insert(0, os.path.join(HERE, 'props'))
        mod = importlib.import_module('props.' + a.prop.lower())
    except Exception:
        traceback.print_exc()
        print('ERROR: the code under test or the harness cannot be loaded', file=sys.stderr)
        return 2
    if a.replay:
        return replay(mod, a.prop, a.replay)

    budget = float(os.environ.get('PYCOSE_VERIF_BUDGET') or (780 if a.tier == 'quick' else 3400))
    jobs = []
    for f in mod.FACETS:
        if a.facet and f.name != a.facet:
            continue
        shards = f.shards if a.tier == 'quick' else max(f.shards, 8)
        for s in range(shards):
            jobs.append(Job(a.prop, f, s, shards, a.tier, seed, a.scale, 25 if a.tier == 'quick' else 120))
    # long facets first
    jobs.sort(key=lambda j: j.shard)
    results, killed = run_jobs(jobs, t0 + budget, a.workers)

    failures = [r['failure'] for r in results if r['failure']]
    errors = [r['error'] for r in results if r['error'] and not r['failure']]
    seen, labels, samples, per = set(), {}, [], {}
    for r in results:
        p = per.setdefault(r['facet'], {'evaluations': 0, 'nontrivial': set()})
        p['evaluations'] += r['evaluations']
        p['nontrivial'] |= r['seen']
        seen |= {(r['facet'], h) for h in r['seen']}
        for k, v in r['labels'].items():
            k = r['facet'] + ': ' + k
            labels[k] = labels.get(k, 0) + v
    for name in sorted(per):
        got = [s for r in results if r['facet'] == name for s in r['samples']][:2]
        samples += [{'facet': name, 'case': s} for s in got]
    coverage = {
        'evaluations': sum(r['evaluations'] for r in results),
        'distinct_nontrivial': len(seen),
        'rule': mod.RULE,
        'samples': samples[:12],
        'facets': {k: {'evaluations': v['evaluations'], 'distinct_nontrivial': len(v['nontrivial'])}
                   for k, v in sorted(per.items())},
        'labels': dict(sorted(labels.items())),
        'jobs_stopped_by_time_limit': killed,
    }
    os.makedirs(os.path.join(env.OUT, 'evidence'), exist_ok=True)
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': LEVEL, 'coverage': coverage,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(failures)}
    part = None
    if not failures and not errors and not sys.flags.optimize and not a.facet:
        part = without_asserts(a, t0 + budget - time.time())
        coverage['without_asserts'] = part[1]
        ev['violations'] += part[1].get('violations', 0)
        ev['wall_s'] = round(time.time() - t0, 2)
    path = a.part or os.path.join(env.OUT, 'evidence', a.prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(path + '.tmp', path)

    for fid, text in load_known().get(a.prop, []):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, text))
    print('%s %s: %d evaluations, %d distinct non-trivial, %d jobs, %.1f s%s' % (
        a.prop, a.tier, coverage['evaluations'], len(seen), len(results), time.time() - t0,
        ' (%d jobs stopped by the time limit: inconclusive there)' % killed if killed else ''))
    if failures:
        fl = min(failures, key=lambda x: x['size'])
        rp = write_replay(a.prop, fl, seed, a.tier)
        print('facet %s: %s' % (fl['facet'], fl['message'][:3000]))
        print('case: %.3000r' % (fl['case'],))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    if errors:
        print('ERROR in the harness:\n' + errors[0][:3000], file=sys.stderr)
        return 2
    if part and part[0]:
        print(part[2], end='')
        print(part[3], end='', file=sys.stderr)
        return part[0]
    return 0
