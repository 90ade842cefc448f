"""Shared machinery of the checks: TLC runs, worker pools, verdicts, evidence, known findings."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
EVID = os.path.join(ROOT, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
WORKERS = max(2, min(8, os.cpu_count() or 4))


def rng(*key):
    return random.Random('%d|%s' % (SEED, '|'.join(map(str, key))))


class TlcError(Exception):
    pass


_TLC = ['java', '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar']


def run_tlc(module, cfg, env=None, workers=None, timeout=700, extra=(), heap=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns dict(lines=[json...], states, distinct, ok, text)."""
    meta = tempfile.mkdtemp(prefix='tlc_')
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xss64m ' + (('-Xmx%s' % heap) if heap else '')
    cmd = ['tlc', '-workers', str(workers or WORKERS), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg, *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    lines = []
    for ln in out.splitlines():
        if ln.startswith('"{') and ln.endswith('}"'):
            try:
                lines.append(json.loads(json.loads(ln)))
            except ValueError:
                pass
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    ms = re.search(r'Finished computing initial states: (\d+) distinct', out)
    return dict(lines=lines, text=out, rc=p.returncode,
                generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                inits=int(ms.group(1)) if ms else 0,
                ok='No error has been found' in out,
                violated=re.findall(r'Invariant (\w+) is violated', out) + re.findall(r'Assumption .* is false', out))


def model_check(module, cfg, timeout=600, env=None, workers=None):
    """Exhaustive check of the laws of a specification module; a failure is an error of the framework."""
    r = run_tlc(module, cfg, timeout=timeout, env=env, workers=workers)
    if not r['ok']:
        raise TlcError('%s/%s: %s' % (module, cfg, r['text'][-3000:]))
    return r


# ---------------------------------------------------------------------------
class Timeout(BaseException):
    """BaseException: code under test that swallows Exception must not swallow this"""


class time_limit:
    """Raises Timeout in the block after sec seconds, again every second (an exception raised in a callback is lost),
    and at the end of the block when something in it turned the Timeout into another exception."""

    TIMERS = ((signal.ITIMER_PROF, signal.SIGPROF, time.process_time, 1), (signal.ITIMER_REAL, signal.SIGALRM, time.time, 5))

    def __init__(self, sec):
        """sec: processor time, so that the verdict does not depend on the load; and five times that of the wall clock"""
        self.sec = sec
        self.fired = False

    def _raise(self, *a):
        self.fired = True
        raise Timeout()

    def __enter__(self):
        self.saved = []
        for timer, sig, clock, k in self.TIMERS:
            old = signal.signal(sig, self._raise)
            self.saved.append((clock(), old, signal.setitimer(timer, self.sec * k, 1)[0]))

    def __exit__(self, kind, *a):
        for (timer, sig, clock, k), (t0, old, outer) in zip(self.TIMERS, self.saved):
            signal.setitimer(timer, 0)
            signal.signal(sig, old)
            if outer:
                signal.setitimer(timer, max(outer - (clock() - t0), .01), 1)
        if self.fired and (kind is None or issubclass(kind, Exception)):
            raise Timeout()


def _quiet_init():
    sys.stdout = open(os.devnull, 'w')


_JOBS = None


def _call(i):
    fn, jobs = _JOBS
    return fn(jobs[i])


def pmap(fn, jobs, budget=None, chunk=1, workers=None, maxtasks=None):
    """Parallel map in forked workers.  Jobs not finished within the budget are dropped (result None)."""
    global _JOBS
    jobs = list(jobs)
    _JOBS = (fn, jobs)      # inherited by the forked workers, so that jobs need not be picklable
    res = [None] * len(jobs)
    t0 = time.time()
    ctx = mp.get_context('fork')
    with ctx.Pool(workers or WORKERS, initializer=_quiet_init, maxtasksperchild=maxtasks) as pool:
        hs = [(i, pool.apply_async(_call, (i,))) for i in range(len(jobs))]
        dropped = 0
        for i, h in hs:
            left = None if budget is None else max(0.05, budget - (time.time() - t0))
            try:
                res[i] = h.get(left)
            except mp.TimeoutError:
                dropped += 1
        pool.terminate()
    return res, dropped


# ---------------------------------------------------------------------------
def load_known():
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


class Report:
    """Collects what a check did and ends it with the right exit status."""

    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.viol = []          # dict(key=, what=, replay=)
        self.assumptions = []
        self.known_hit = []
        shutil.rmtree(os.path.join(EVID, 'replay-' + pid), ignore_errors=True)

    def add_tlc(self, r):
        self.states += r['distinct']
        self.transitions += max(0, r['generated'] - r['inits'])

    def violation(self, key, what, replay):
        self.viol.append(dict(key=key, what=what, replay=replay))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        known = [k for k in load_known() if k['property'] == self.pid and k.get('status', 'open') == 'open']
        new = []
        for v in self.viol:
            hit = None
            for k in known:
                if re.fullmatch(k['key'], v['key']):
                    hit = k
                    break
            if hit is None:
                new.append(v)
            elif hit not in self.known_hit:
                self.known_hit.append(hit)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ['none'])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            d = os.path.join(EVID, 'replay-' + self.pid)
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(new[:20]):
                path = os.path.join(d, '%03d.json' % i)
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, key=v['key'], what=v['what'], replay=v['replay']),
                              f, indent=1, default=str)
                if i < 5:
                    print('  %s: %s' % (v['key'], v['what']))
                if i == 0:
                    print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('%s: %d divergences from the specification' % (self.pid, len(new)))
            sys.stdout.flush()
            return 1
        print('%s: held; %d traces validated, %d states, %.1f s'
              % (self.pid, self.traces, self.states, time.time() - self.t0))
        sys.stdout.flush()
        return 0
