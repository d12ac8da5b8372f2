"""Case runner, verdicts, evidence. A check is a module with

ID, RULE, cases(seed, tier) -> list of JSON-able dicts, run(case, ctx), and optionally
warm() (compile/import before the workers are forked), MIN {counter: minimum}, ASSUMPTIONS, WORKERS, CASE_TIMEOUT.

Verdicts: violated (exit 1), held on everything observed (exit 0), inconclusive or broken check (exit 2).
"""
import collections
import faulthandler
import contextlib
import hashlib
import json
import logging
import os
import shutil
import signal
import sys
import time
import traceback
import zlib

import numpy as np
from tables.exceptions import NodeError

ROOT = os.environ.get('VERIF_ROOT', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUDGET = {'quick': 400., 'thorough': 600.}


class CaseStop(Exception):
    """Raised after a violation that makes the rest of the case meaningless."""


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 200 else repr(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o) if np.isfinite(o) else repr(float(o))
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


class Ctx(object):
    def __init__(self, check_id, seed, tier, case, index, workdir):
        self.id, self.seed, self.tier, self.case, self.index, self.dir = check_id, seed, tier, case, index, workdir
        self.rng = np.random.default_rng([zlib.crc32(check_id.encode()), zlib.crc32(json.dumps(case, sort_keys=True).encode())])
        self.counters = collections.Counter()
        self.violations = []
        self.evaluations = 0
        self.nontrivial = []
        self.sample = None
        self.sut_calls = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def ok(self, n=1, **counters):
        """n oracle comparisons were made and passed."""
        self.evaluations += n
        for k, v in counters.items():
            self.counters[k] += int(v)

    def count(self, **counters):
        for k, v in counters.items():
            self.counters[k] += int(v)

    def interesting(self, *what):
        """This case is non-trivial; `what` identifies it."""
        self.nontrivial.append(hashlib.sha1(json.dumps(jsonable(what)).encode()).hexdigest()[:16])

    def violate(self, key, msg, stop=True, **detail):
        self.evaluations += 1
        self.violations.append(dict(key=key, msg=str(msg)[:2000], detail=jsonable(detail)))
        if stop:
            raise CaseStop(key)

    def expect(self, cond, key, msg='', stop=True, **detail):
        if cond:
            self.evaluations += 1
        else:
            self.violate(key, msg, stop=stop, **detail)
        return bool(cond)

    @contextlib.contextmanager
    def sut(self, label, allow=()):
        """Legal use of the code under test: an exception here is a violation (except the types in `allow`)."""
        self.sut_calls += 1
        try:
            yield
        except CaseStop:
            raise
        except allow:
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # SystemExit included
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/beam_telescope_analysis/' in f.filename]
            at = '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else '?'
            self.violate('exception:%s:%s:%s' % (label, type(e).__name__, at),
                         '%s raised %s: %s\n%s' % (label, type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-4:])))


def load_known():
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get('findings', [])


def _run_case(mod, seed, tier, case, index, base):
    workdir = os.path.join(base, 'case_%d' % index)
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    ctx = Ctx(mod.ID, seed, tier, case, index, workdir)
    res = dict(index=index, error=None)
    np.random.seed(zlib.crc32(json.dumps([mod.ID, case], sort_keys=True).encode()) & 0x7fffffff)
    t0 = time.time()
    old = os.getcwd()
    os.chdir(workdir)
    try:
        mod.run(case, ctx)
    except CaseStop:
        pass
    except (KeyError, IndexError, ValueError, TypeError, AttributeError, ArithmeticError, RuntimeError, OSError, NodeError) as e:
        # After a call of the code under test that returned normally, an output that lacks what the oracle needs is a violation.
        # An exception raised by the code under test on legal use is one in any case.
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/beam_telescope_analysis/' in f.filename]
        if (where or ctx.sut_calls) and 'Errno 28' not in str(e):
            key = 'exception:workload:%s:%s' % (type(e).__name__, where[-1].name) if where else 'output-unusable:%s' % type(e).__name__
            ctx.violations.append(dict(key=key, msg='%s: %s\n%s' % (
                type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-3:])), detail={}))
        else:
            res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
    except BaseException as e:
        res['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        os.chdir(old)
        shutil.rmtree(workdir, ignore_errors=True)
        try:
            import tables
            tables.file._open_files.close_all()
        except Exception:
            pass
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
    res.update(counters=dict(ctx.counters), violations=ctx.violations, evaluations=ctx.evaluations,
               nontrivial=ctx.nontrivial, sample=jsonable(ctx.sample), wall=time.time() - t0)
    return res


def _worker(mod, seed, tier, cases, indices, base, outpath, curpath):
    """Runs in a forked child: works off its indices, appends results."""
    os.setpgid(0, 0)
    devnull = os.open(os.path.join(base, 'log_%d.txt' % os.getpid()), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    faulthandler.register(signal.SIGUSR1, file=os.fdopen(os.dup(devnull), 'w'), all_threads=True)
    logging.disable(logging.CRITICAL)
    with open(outpath, 'a') as out:
        for i in indices:
            with open(curpath, 'w') as f:
                f.write('%d %f' % (i, time.time()))
            res = _run_case(mod, seed, tier, cases[i], i, base)
            out.write(json.dumps(res) + '\n')
            out.flush()
    with open(curpath, 'w') as f:
        f.write('done')
    os._exit(0)


class Pool(object):
    """Forked, non-daemonic workers pulling case numbers; survives crashes and hangs of the code under test."""

    def __init__(self, mod, seed, tier, cases, base, n_workers, case_timeout, deadline):
        self.__dict__.update(locals())
        self.results, self.crashed, self.timed_out, self.skipped, self.stacks = {}, [], [], 0, []

    def run(self, indices):
        todo = collections.deque(indices)
        slots = {}
        n = 0
        while todo or slots:
            while todo and len(slots) < self.n_workers:
                if time.time() > self.deadline:
                    self.skipped += len(todo)
                    todo.clear()
                    break
                # a worker takes a batch: forking is cheap, but not free
                batch = [todo.popleft() for _ in range(min(max(1, len(todo) // (4 * self.n_workers)), len(todo), 25))]
                n += 1
                outp, curp = os.path.join(self.base, 'out_%d' % n), os.path.join(self.base, 'cur_%d' % n)
                open(outp, 'w').close()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        _worker(self.mod, self.seed, self.tier, self.cases, batch, self.base, outp, curp)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(3)
                slots[pid] = (batch, outp, curp, [None])
            for pid in list(slots):
                batch, outp, curp, _ = slots[pid]
                done, status = os.waitpid(pid, os.WNOHANG)
                cur, since = self._current(curp)
                if done:
                    slots.pop(pid)
                    self._killgroup(pid)
                    got = self._collect(outp)
                    left = [i for i in batch if i not in got]
                    if left and not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0):
                        i = cur if cur in left else left[0]
                        self.crashed.append((i, status))
                        left.remove(i)
                    todo.extendleft(reversed(left))
                elif since is not None and time.time() - since > self.case_timeout:
                    self._stacks(pid)
                    self._killgroup(pid)
                    os.waitpid(pid, 0)
                    slots.pop(pid)
                    got = self._collect(outp)
                    left = [i for i in batch if i not in got]
                    i = cur if cur in left else left[0]
                    self.timed_out.append(i)
                    left.remove(i)
                    todo.extendleft(reversed(left))
                elif time.time() > self.deadline + self.case_timeout:
                    self._killgroup(pid)
                    os.waitpid(pid, 0)
                    slots.pop(pid)
                    got = self._collect(outp)
                    self.skipped += len([i for i in batch if i not in got])
            time.sleep(0.01)

    def _current(self, curp):
        try:
            a, b = open(curp).read().split()
            return int(a), float(b)
        except Exception:
            return None, None

    def _killgroup(self, pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def _stacks(self, pid):
        """Where the worker and its children (forked from it, so they have the handler, too) are."""
        try:
            os.killpg(pid, signal.SIGUSR1)
            time.sleep(.5)
            text = open(os.path.join(self.base, 'log_%d.txt' % pid), errors='replace').read()
            self.stacks.append(text[-6000:])
        except OSError:
            pass

    def _collect(self, outp):
        got = {}
        for line in open(outp):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            got[r['index']] = r
        self.results.update(got)
        return got


def run_check(mod, seed, tier, replay=None, max_cases=None):
    t0 = time.time()
    base = os.environ['BTAV_SCRATCH']
    if replay:
        rec = json.load(open(replay))
        seed, tier = rec['seed'], rec['tier']
        cases = [rec['case']]
    else:
        cases = mod.cases(seed, tier)
    if max_cases:
        cases = cases[:max_cases]
    if hasattr(mod, 'warm'):
        # what goes wrong here goes wrong in the cases as well, where it is judged
        def late(*_):
            raise RuntimeError('preparation takes too long')
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(200)
        try:
            mod.warm()
        except Exception as e:
            print('note: preparation ended with %s: %s' % (type(e).__name__, e))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    n_workers = min(getattr(mod, 'WORKERS', 8), len(cases), os.cpu_count() or 1)
    timeout = getattr(mod, 'CASE_TIMEOUT', 120.)
    budget = getattr(mod, 'BUDGET', BUDGET)[tier]
    pool = Pool(mod, seed, tier, cases, base, n_workers, timeout, t0 + budget)
    pool.run(range(len(cases)))
    extra = []
    # A case that did not come to an end is tried again on its own, with more time, before it is called a violation.
    for i in pool.timed_out[:3]:
        solo = Pool(mod, seed, tier, cases, base, 1, 2 * timeout, time.time() + 10)
        solo.run([i])
        pool.results.update(solo.results)
        if solo.timed_out:
            extra.append((i, dict(key='no-termination', msg='no result within %d s, also when run alone' % (2 * timeout), detail={})))
    for i, status in pool.crashed:
        if os.WIFSIGNALED(status):
            extra.append((i, dict(key='crash:signal-%d' % os.WTERMSIG(status), msg='the process was killed by signal %d' % os.WTERMSIG(status), detail={})))
        else:
            extra.append((i, dict(key='crash:exit', msg='the process ended with status %d' % status, detail={})))

    counters = collections.Counter()
    evaluations, nontrivial, samples, errors, viols = 0, set(), [], [], list(extra)
    for i in sorted(pool.results):
        r = pool.results[i]
        counters.update(r['counters'])
        evaluations += r['evaluations']
        nontrivial.update(r['nontrivial'])
        if r['sample'] is not None and len(samples) < 6:
            samples.append(dict(case=jsonable(cases[i]), observed=r['sample']))
        if r['error']:
            errors.append((i, r['error']))
        viols += [(i, v) for v in r['violations']]
    if not samples and cases:
        samples = [dict(case=jsonable(c)) for c in cases[:3]]

    known = {k['key']: k for k in load_known() if k['property'] == mod.ID}
    new, hit = [], {}
    for i, v in viols:
        if v['key'] in known:
            hit.setdefault(v['key'], i)
        else:
            new.append((i, v))

    wall = time.time() - t0
    ev = dict(property=mod.ID, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=len(new),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              coverage=dict(evaluations=int(evaluations), distinct_nontrivial=len(nontrivial), rule=mod.RULE, samples=samples,
                            cases_planned=len(cases), cases_run=len(pool.results), cases_not_reached_in_time=pool.skipped,
                            observed=dict(sorted(counters.items())), known_findings_seen=sorted(hit)))
    if not replay:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', mod.ID + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    for key in known:
        if key in hit:
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, known[key]['what']))
    if new:
        seen = set()
        for i, v in new:
            if v['key'] in seen or len(seen) >= 5:
                continue
            seen.add(v['key'])
            path = os.path.join(ROOT, 'replays', '%s-%s.json' % (mod.ID, hashlib.sha1((v['key'] + json.dumps(jsonable(cases[i]))).encode()).hexdigest()[:10]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                json.dump(dict(property=mod.ID, seed=seed, tier=tier, case=jsonable(cases[i]), violation=v,
                               how='./run.sh %s --replay %s' % (mod.ID, path)), f, indent=1)
            print('  [%s] %s' % (v['key'], v['msg'][:1200]))
            if v['detail']:
                print('  detail: %s' % json.dumps(v['detail'])[:1500])
            print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        print('%d violations (%d kinds) in %d cases, %.1f s' % (len(new), len(set(v['key'] for _, v in new)), len(pool.results), wall))
        return 1
    for i, e in errors[:3]:
        print('ERROR of the check in case %s\n%s' % (json.dumps(jsonable(cases[i]))[:600], e))
    if errors:
        return 2
    if pool.timed_out and not extra:
        # up to three slow cases that came to an end when they ran alone do not matter
        missing = [i for i in pool.timed_out if i not in pool.results]
        print('%s: %d cases did not end in time, %d of them not when run alone either' % ('INCONCLUSIVE' if missing else 'note', len(pool.timed_out), len(missing)))
        for t in pool.stacks[:2]:
            print(t)
        if missing:
            return 2
    if not replay and not max_cases:
        for k, m in getattr(mod, 'MIN', {}).items():
            if counters[k] < m:
                print('INCONCLUSIVE: observed only %d of %s, need %d' % (counters[k], k, m))
                return 2
        if len(pool.results) < min(len(cases), 2):
            print('INCONCLUSIVE: only %d cases ran' % len(pool.results))
            return 2
    print('%s held: %d cases (%d not reached), %d comparisons, %d distinct non-trivial, %.1f s; %s' % (
        mod.ID, len(pool.results), pool.skipped, evaluations, len(nontrivial), wall,
        ', '.join('%s=%d' % kv for kv in sorted(counters.items()))[:900]))
    return 0
