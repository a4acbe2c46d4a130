"""Runner for bounded exhaustive checks.

A check module defines
    LEVEL, RULE, ASSUMPTIONS
    jobs(tier, seed) -> list of JSON-able dicts, each a slice of the bounded space
    run(job, ctx)    -> executes every case of the slice through ctx.case(key, fn)
Jobs run in fresh worker processes (spawn).  The parent never imports the code under test.
"""
import argparse, concurrent.futures as cf, faulthandler, importlib, json, multiprocessing as mp
import glob, os, shutil, signal, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
DEADLINE = float(os.environ.get('MC_DEADLINE', '820'))


class CheckFail(Exception):
    """The property is violated on this case."""


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Watchdog(threading.Thread):
    """Ends the worker when compiled code does not return: the alarm of a case only fires between Python instructions."""
    GRACE = 20

    def __init__(self):
        super().__init__(daemon=True)
        self.due = None
        self.start()

    def between(self, job):
        self.due = (time.time() + 300., job, json.dumps('job-setup'), 300)

    def run(self):
        while True:
            time.sleep(1.)
            d = self.due
            if d is not None and time.time() > d[0]:
                with open(os.path.join(tempfile.gettempdir(), 'hang_%d.json' % os.getpid()), 'w') as f:
                    json.dump(dict(job=d[1], key=d[2], msg='no result within %d s (non-termination inside compiled code)' % d[3]), f)
                os._exit(77)


_dog = None


class Ctx:
    def __init__(self, prop, job, only=None, max_viol=3):
        self.prop, self.job, self.only, self.max_viol = prop, job, only, max_viol
        self.evals = 0
        self.keys = set()
        self.counts = dict(states=0, transitions=0, traces=0)
        self.violations, self.samples, self.outcomes = [], [], {}
        self.stop = False
        self.scratch = tempfile.mkdtemp(prefix='mc_%s_' % prop)

    def add(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def outcome(self, tag):
        """Record an observed outcome class (to show that exploration is not vacuous)."""
        self.outcomes[str(tag)] = self.outcomes.get(str(tag), 0) + 1

    def case(self, key, fn, nontrivial=True, timeout=60):
        """Run one case. Any exception out of fn, or non-termination, is a violation."""
        key = json.dumps(key, sort_keys=True, default=str)
        if self.stop or (self.only is not None and key != self.only):
            return None
        self.evals += 1
        if nontrivial:
            self.keys.add(key)
        if self.evals % 5 == 0:
            _relieve(25000)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(timeout))
        if _dog is not None:
            _dog.due = (time.time() + timeout + _dog.GRACE, self.job, key, timeout)
        try:
            try:
                out = fn()
            except Exception as e:
                if not _exhausted(e):
                    raise
                # the process ran out of memory maps for compiled code: an artefact of the long-lived worker
                _relieve(0)
                out = fn()
            if len(self.samples) < 2:
                self.samples.append(dict(case=json.loads(key), observed=str(out)[:300]))
            return out
        except CaseTimeout:
            self._viol(key, 'no result within %d s (non-termination)' % timeout)
        except CheckFail as e:
            self._viol(key, str(e))
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            self._viol(key, 'unexpected %s: %s\n%s' % (type(e).__name__, str(e)[:500], tb[-2500:]))
        finally:
            if _dog is not None:
                _dog.between(self.job)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return None

    def _viol(self, key, msg):
        self.violations.append(dict(key=key, msg=msg))
        if len(self.violations) >= self.max_viol:
            self.stop = True

    def result(self):
        return dict(evals=self.evals, nontrivial=len(self.keys), counts=self.counts,
                    violations=self.violations, samples=self.samples, outcomes=self.outcomes)


# ---------------------------------------------------------------- worker side
def _exhausted(e):
    m = str(e)
    return 'Failed to materialize symbols' in m or 'Cannot allocate memory' in m


def _relieve(limit):
    """Drop compiled executables when the number of memory maps of this process gets large."""
    try:
        with open('/proc/self/maps') as f:
            n = sum(1 for _ in f)
    except OSError:
        return
    if n >= limit and 'jax' in sys.modules:
        import gc
        sys.modules['jax'].clear_caches()
        gc.collect()


def _cover(out):
    """MC_COV=file: record which source lines of REPO run (appended per worker; used by tools/coverage.py)."""
    m = sys.monitoring
    m.use_tool_id(3, 'mc')

    def line(code, no):
        if code.co_filename.startswith(REPO + os.sep):
            with open(out, 'a') as f:
                f.write('%s:%d\n' % (code.co_filename[len(REPO) + 1:], no))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)


def _init_worker():
    global _dog
    if os.environ.get('MC_COV'):
        _cover(os.environ['MC_COV'])
    _dog = Watchdog()
    faulthandler.enable()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def _run_job(prop, job, only=None):
    t = time.time()
    mod = importlib.import_module('mc.checks.' + prop.lower())
    if getattr(mod, 'NEEDS_JAX_FEM', True):
        import logging
        import jax_fem
        import jax_fem.solver  # enables float64
        logging.getLogger('jax_fem').setLevel(logging.CRITICAL)
        assert os.path.dirname(os.path.abspath(jax_fem.__file__)) == os.path.join(REPO, 'jax_fem')
    ctx = Ctx(prop, job, only)
    if _dog is not None:
        _dog.between(job)
    try:
        try:
            mod.run(job, ctx)
        except CaseTimeout:
            raise
        except Exception as e:  # preparation of the slice failed: the code under test broke it
            tb = traceback.format_exc(limit=-6)
            ctx._viol(json.dumps('job-setup'), 'unexpected %s while preparing the slice: %s\n%s'
                      % (type(e).__name__, str(e)[:500], tb[-2500:]))
    finally:
        if _dog is not None:
            _dog.due = None
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    r = ctx.result()
    r['job'] = job
    r['wall'] = time.time() - t
    return r


# ---------------------------------------------------------------- parent side
def _env(scratch):
    e = os.environ
    e['JAX_PLATFORMS'] = 'cpu'
    e['XLA_FLAGS'] = ('--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true '
                      '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[v] = '1'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['JAX_COMPILATION_CACHE_DIR'] = os.path.join(VERIF, '.cache', 'xla')
    e['JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS'] = '0'
    e['JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES'] = '-1'
    e['TMPDIR'] = scratch
    tempfile.tempdir = scratch


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                d = json.loads(line[len('finding: '):])
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=int(os.environ.get('MC_WORKERS', '0')))
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    ap.add_argument('--limit-jobs', type=int)
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mcrun_')
    os.makedirs(os.path.join(VERIF, '.cache', 'xla'), exist_ok=True)
    _env(scratch)
    try:
        rc = _main(a, prop, tier, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(a, prop, tier, seed, t0):
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('mc.checks.' + prop.lower())
    only = None
    if a.replay:
        rep = json.load(open(a.replay))
        jobs, only = [rep['job']], rep['key']
        if only == json.dumps('job-setup'):
            only = None
    else:
        jobs = list(mod.jobs(tier, seed))
        if a.limit_jobs:
            jobs = jobs[:a.limit_jobs]
    results, truncated = [], []
    deadline = t0 + DEADLINE
    if a.serial:
        if os.environ.get('MC_DEBUG') is None:
            os.environ['MC_DEBUG'] = '1'
        sys.path.insert(0, REPO)
        for j in jobs:
            results.append(_run_job(prop, j, only))
    else:
        results, truncated = _pool(a, prop, jobs, only, deadline)
    return report(a, prop, mod, tier, seed, t0, jobs, results, truncated)


def _pool(a, prop, jobs, only, deadline):
    n = a.workers or min(8, os.cpu_count() or 4)
    n = max(1, min(n, len(jobs)))
    results, pending = [], list(enumerate(jobs))
    retried = set()
    ctxm = mp.get_context('spawn')
    while pending:
        ex = cf.ProcessPoolExecutor(n, mp_context=ctxm, initializer=_init_worker)
        futs = {ex.submit(_run_job, prop, j, only): (i, j) for i, j in pending}
        done_idx, broken, stopped = set(), False, False
        try:
            for f in cf.as_completed(futs, timeout=max(1., deadline - time.time())):
                i, j = futs[f]
                try:
                    r = f.result()
                except cf.process.BrokenProcessPool:
                    broken = True
                    continue
                except BaseException as e:
                    r = dict(evals=1, nontrivial=0, counts={}, samples=[], outcomes={}, job=j, wall=0.,
                             violations=[dict(key=json.dumps('job-setup'), msg='job failed: %r' % (e,))])
                results.append(r)
                done_idx.add(i)
                if r['violations'] and not a.all:
                    stopped = True
                    break
        except cf.TimeoutError:
            _kill(ex)
            return results, [j for i, j in pending if i not in done_idx]
        _kill(ex)
        if stopped:
            return results, []
        pending = [(i, j) for i, j in pending if i not in done_idx]
        hung = [json.load(open(h)) for h in glob.glob(os.path.join(tempfile.gettempdir(), 'hang_*.json'))]
        if broken and hung:
            for h in hung:
                results.append(dict(evals=1, nontrivial=1, counts={}, samples=[], outcomes={}, job=h['job'], wall=0., violations=[dict(key=h['key'], msg=h['msg'])]))
            return results, []
        if broken and pending:
            # a worker died: run the remaining jobs one by one to see which one kills its process
            still = []
            for i, j in pending:
                if time.time() > deadline:
                    still.append((i, j))
                    continue
                ex = cf.ProcessPoolExecutor(1, mp_context=ctxm, initializer=_init_worker)
                try:
                    r = ex.submit(_run_job, prop, j, only).result(timeout=max(1., deadline - time.time()))
                except cf.process.BrokenProcessPool:
                    r = dict(evals=1, nontrivial=0, counts={}, samples=[], outcomes={}, job=j, wall=0.,
                             violations=[dict(key=json.dumps('job-setup'), msg='the process died (crash) on this slice')])
                except cf.TimeoutError:
                    still.append((i, j))
                    _kill(ex)
                    continue
                _kill(ex)
                results.append(r)
                if r['violations'] and not a.all:
                    return results, []
            return results, [j for _, j in still]
    return results, []


def _kill(ex):
    procs = list((getattr(ex, '_processes', None) or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        try:
            p.kill()
        except Exception:
            pass


def report(a, prop, mod, tier, seed, t0, jobs, results, truncated):
    known = load_known()
    viol, findings = [], []
    for r in results:
        for v in r['violations']:
            k = next((d for d in known if d['property'] == prop and d['key'] == v['key']
                      and d.get('job', r['job']) == r['job']), None)
            (findings if k else viol).append((r['job'], v, k))
    ev = sum(r['evals'] for r in results)
    nt = sum(r['nontrivial'] for r in results)
    counts = {}
    outcomes = {}
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
    samples = [s for r in results for s in r['samples']][:6]
    cov = dict(evaluations=ev, distinct_nontrivial=nt, rule=mod.RULE, samples=samples,
               exhaustive=not truncated and not viol and not a.replay and not a.limit_jobs,
               slices=len(jobs), slices_done=len(results), observed_outcomes=outcomes)
    if getattr(mod, 'BOUND', None):
        cov['bound'] = mod.BOUND[tier] if isinstance(mod.BOUND, dict) else mod.BOUND
    if mod.LEVEL == 'model_checking':
        cov['states'] = counts.get('states', 0)
        cov['transitions'] = counts.get('transitions', 0)
        cov['traces_validated_against_impl'] = counts.get('traces', 0)
    if truncated:
        cov['truncated_slices'] = truncated[:50]
    for k, v in counts.items():
        if k not in ('states', 'transitions', 'traces'):
            cov[k] = v
    wall = time.time() - t0
    evd = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
               assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(viol))
    if not a.replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evd, f, indent=1)
    slow = sorted(((round(r['wall'], 1), str(r['job'])[:60]) for r in results), reverse=True)[:3]
    print('%s tier=%s slices=%d/%d evaluations=%d distinct=%d %s wall=%.1fs slowest=%s' % (
        prop, tier, len(results), len(jobs), ev, nt,
        {k: v for k, v in counts.items() if v}, wall, slow))
    for job, v, k in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', v['key'])))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for n, (job, v, _) in enumerate(viol[:5]):
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (prop, n))
            if not a.replay:
                with open(path, 'w') as f:
                    json.dump(dict(property=prop, tier=tier, seed=seed, job=job, key=v['key'], message=v['msg']), f, indent=1)
            else:
                path = a.replay
            print('--- case %s in slice %s\n%s' % (v['key'], json.dumps(job)[:300], v['msg'][:3000]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if len(results) < len(jobs) and not truncated:
        print('ERROR: slices missing')
        return 2
    return 0


if __name__ == '__main__':
    main()
