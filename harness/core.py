'''Runtime-monitoring framework: bootstraps the code under test, drives the
workloads of one property in parallel worker processes, collects what the
monitors observed, and turns it into a verdict and an evidence file.

A *workload* runs one *case*: it drives the real code with inputs drawn from a
seeded generator while monitors (ctx.check / ctx.call / reference models)
observe.  Everything random comes from (seed, property, workload, index), and
the iteration order of sets of events - the one scheduling freedom this
single-threaded library has - is drawn from the same seed through a controlled
event hash, so a case can be replayed exactly.'''
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.realpath(os.environ.get('CAUSETS_REPO', '/repo'))
EVIDENCE = os.environ.get('CAUSETS_EVIDENCE', os.path.join(VERIF, 'evidence'))
QUICK_FACTOR = 3    # 3 times the cases the workloads ask for
CASE_WATCHDOG_S = float(os.environ.get('CAUSETS_WATCHDOG', '40'))
STEP_BUDGET = 60_000_000   # ordinary cases need at most about a million


class Violated(Exception):
    '''A monitor saw the property broken.'''

    def __init__(self, kind, detail):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail = kind, detail


class CaseTimeout(BaseException):
    pass


class StepBudgetExceeded(BaseException):
    pass


class Skip(Exception):
    '''The generated case is outside the property's domain.'''


# --------------------------------------------------------------------------
# bootstrapping of the code under test
_scratch = None


def scratch():
    '''A scratch directory of this run, removed at its end.'''
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='causets-check-')
    return _scratch


def bootstrap():
    '''Makes `import causets` load the sources of REPO's working tree, compiled
    afresh (an empty bytecode cache), whatever lies in __pycache__.'''
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), 'pycache')
    link = os.path.join(scratch(), 'path')
    os.makedirs(link, exist_ok=True)
    if not os.path.islink(os.path.join(link, 'causets')):
        os.symlink(REPO, os.path.join(link, 'causets'))
    sys.path.insert(0, link)
    import numpy  # noqa: F401
    import causets
    got = os.path.realpath(causets.__file__)
    want = os.path.join(REPO, '__init__.py')
    if got != want:
        raise RuntimeError(f'imported {got}, wanted {want}')
    HashControl.install()


class HashControl:
    '''Controls the iteration order of sets of events.  The events compare and
    hash by identity; replacing the address by a seeded number keeps that and
    makes the set order an explicit, replayable part of the case.'''
    rng = random.Random(0)
    active = False

    @classmethod
    def install(cls):
        from causets.causetevent import CausetEvent
        if CausetEvent.__hash__ is not object.__hash__:
            return  # the code under test defines its own: leave it alone

        def controlled_hash(self):
            try:
                return self.__dict__['_vh']
            except KeyError:
                h = cls.rng.getrandbits(60)
                self.__dict__['_vh'] = h
                return h
            except AttributeError:  # no instance dictionary
                return object.__hash__(self)
        CausetEvent.__hash__ = controlled_hash
        cls.active = True

    @classmethod
    def reseed(cls, key):
        cls.rng = random.Random('hash:' + key)


# --------------------------------------------------------------------------
class Ctx:
    '''What the workloads of one worker observe.'''

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.n = collections.Counter()       # monitor event counters
        self.stats = collections.defaultdict(list)
        self.sigs = set()                    # distinct non-trivial cases
        self.samples = []
        self.case = None
        self.trace = []
        self.desc = None
        self.nontrivial = False
        self.sigparts = []

    # -- per case -----------------------------------------------------------
    def begin(self, key):
        self.case, self.trace, self.desc = key, [], None
        self.nontrivial, self.sigparts = False, []

    def log(self, *event):
        '''Records one event of the history (kept for the witness).'''
        self.trace.append(event)
        if len(self.trace) > 400:
            del self.trace[:100]

    def describe(self, desc, sig=None, nontrivial=True):
        self.desc = desc
        self.nontrivial = self.nontrivial or bool(nontrivial)
        self.sigparts.append(desc if sig is None else sig)

    # -- monitors -----------------------------------------------------------
    def check(self, cond, kind, detail=''):
        self.n['monitor:' + kind] += 1
        if not cond:
            raise Violated(kind, detail() if callable(detail) else detail)

    def equal(self, got, want, kind, detail=''):
        self.n['monitor:' + kind] += 1
        if not (got == want):
            d = detail() if callable(detail) else detail
            raise Violated(kind, f'got {short(got)}, expected {short(want)}; '
                                 f'{d}')

    def close(self, got, want, kind, rel=1e-9, abs_=0.0, detail=''):
        self.n['monitor:' + kind] += 1
        try:
            ok = abs(got - want) <= max(rel * max(abs(got), abs(want)), abs_)
        except TypeError:
            ok = False
        if not ok:
            d = detail() if callable(detail) else detail
            raise Violated(kind, f'got {short(got)}, expected {short(want)} '
                                 f'(rel {rel}); {d}')

    def call(self, kind, fn, *args, **kwargs):
        '''Calls the API where the property promises an answer: an exception
        is a violation.'''
        self.n['call:' + kind] += 1
        try:
            return fn(*args, **kwargs)
        except (Violated, Skip):
            raise
        except Exception as ex:  # noqa: BLE001
            raise Violated(f'{kind}:raises:{type(ex).__name__}',
                           f'{type(ex).__name__}: {ex}; '
                           + last_frames(ex)) from ex

    def raises(self, kind, exc, fn, *args, **kwargs):
        '''Calls the API where the property promises a rejection.'''
        self.n['monitor:' + kind] += 1
        try:
            r = fn(*args, **kwargs)
        except exc:
            return
        except Exception as ex:  # noqa: BLE001
            raise Violated(kind, f'raised {type(ex).__name__}: {ex} instead '
                                 f'of {exc}') from ex
        raise Violated(kind, f'accepted, returned {short(r)}')

    def count(self, name, k=1):
        self.n[name] += k


def last_frames(ex):
    fr = traceback.extract_tb(ex.__traceback__)[-3:]
    return ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}'
                       for f in reversed(fr))


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as ex:  # noqa: BLE001
        s = f'<unrepresentable {type(x).__name__}: {ex}>'
    return s if len(s) <= n else s[:n] + '...'


# --------------------------------------------------------------------------
class W:
    '''A workload: `fn(ctx, rng, index)` runs one case.'''

    def __init__(self, fn, quick, thorough, name=None, sized=False):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.name = name or fn.__name__
        self.sized = sized      # its cases grow with a size

    def cases(self, tier):
        return self.thorough if tier == 'thorough' else \
            min(QUICK_FACTOR * self.quick, max(self.quick, self.thorough))


def run_one(check, ctx, w, index):
    key = f'{ctx.seed}:{ctx.pid}:{w.name}:{index}'
    ctx.begin(key)
    HashControl.reseed(key)
    rng = random.Random(key)
    import numpy as np
    np.random.seed(int(hashlib.sha256(key.encode()).hexdigest()[:8], 16))
    w.fn(ctx, rng, index)


def run_guarded(check, ctx, w, index):
    '''Runs one case under the watchdog. Returns None, or (kind, detail).'''
    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WATCHDOG_S)
    try:
        run_one(check, ctx, w, index)
        return None
    except Skip:
        ctx.n['skipped'] += 1
        return None
    except Violated as v:
        return (v.kind, v.detail)
    except CaseTimeout:
        ctx.n['watchdog'] += 1
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as ex:  # noqa: BLE001
        return unexpected(ex)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if w.sized:
        # Some requests take a time exponential in the size of the order: with
        # dozens or hundreds of events no budget tells slow from stuck.
        ctx.n['slow_cases'] += 1
        return None
    # The wall clock decides nothing: repeat with a budget of executed lines.
    return run_stepped(check, ctx, w, index)


ENVIRONMENT = (MemoryError, OSError, ImportError)


def unexpected(ex):
    """An exception the workload does not provide for. Raised inside the
    library it is a refused request for which every workload expects an
    answer; raised by a monitor that works with an answer of the library, the
    answer is of a kind no monitor foresees (None for a set, a missing entry).
    On code where the property holds neither happens. Shortage of memory or
    trouble with the file system tell nothing: they stay errors."""
    if isinstance(ex, ENVIRONMENT):
        raise ex
    files = [os.path.realpath(f.filename)
             for f in traceback.extract_tb(ex.__traceback__)]
    where = 'raises' if any(f.startswith(REPO + os.sep) for f in files) \
        else 'answer'
    return (f'unexpected:{where}:{type(ex).__name__}',
            f'{type(ex).__name__}: {ex}; ' + last_frames(ex))


def run_stepped(check, ctx, w, index):
    steps = [0]

    def tracer(frame, event, arg):
        if event == 'call' and not frame.f_code.co_filename.startswith(REPO) \
                and '/causets/' not in frame.f_code.co_filename:
            return None
        steps[0] += 1
        if steps[0] > STEP_BUDGET:
            raise StepBudgetExceeded()
        return tracer

    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 5 * CASE_WATCHDOG_S)
    sys.settrace(tracer)
    try:
        run_one(check, ctx, w, index)
        return None
    except Skip:
        return None
    except Violated as v:
        return (v.kind, v.detail)
    except StepBudgetExceeded:
        return ('nontermination', f'no answer within {STEP_BUDGET} executed '
                                  'lines of the library')
    except CaseTimeout:
        ctx.n['inconclusive_cases'] += 1
        return None
    except Exception as ex:  # noqa: BLE001
        return unexpected(ex)
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def worker(check, pid, tier, seed, k, jobs, deadline, only, q):
    ctx = Ctx(pid, tier, seed)
    violations = []
    errors = []
    cases = 0
    truncated = False
    tw = collections.Counter()
    slowest = (0.0, None, None)
    try:
        plan = []
        for w in check.WORKLOADS:
            idx = only.get(w.name, []) if only is not None \
                else range(w.cases(tier))
            total = len(idx)
            for i in idx:
                plan.append(((i + 0.5) / max(total, 1), w, i))
        # interleave the workloads, so that a time cap cuts all of them evenly
        plan.sort(key=lambda p: (p[0], p[1].name))
        plan = plan[k::jobs]
        for _, w, i in plan:
            if time.monotonic() > deadline:
                truncated = True
                break
            t0 = time.monotonic()
            try:
                v = run_guarded(check, ctx, w, i)
            except Exception as ex:  # noqa: BLE001  harness error
                errors.append(f'{w.name}:{i}: {type(ex).__name__}: {ex} '
                              + last_frames(ex) + '\n'
                              + traceback.format_exc()[-1500:])
                if len(errors) > 5:
                    break
                continue
            dt = time.monotonic() - t0
            tw[w.name] += dt
            if dt > slowest[0]:
                slowest = (dt, w.name, i)
            cases += 1
            ctx.n['cases:' + w.name] += 1
            if ctx.nontrivial:
                sig = hashlib.sha256(repr((w.name, ctx.sigparts))
                                     .encode()).hexdigest()[:16]
                if sig not in ctx.sigs:
                    ctx.sigs.add(sig)
                    if len(ctx.samples) < 3:
                        ctx.samples.append({'workload': w.name, 'index': i,
                                            'case': short(ctx.desc, 600)})
            if v is not None:
                violations.append({
                    'workload': w.name, 'index': i, 'kind': v[0],
                    'detail': short(v[1], 2500),
                    'case': short(ctx.desc, 2000),
                    'trace': [short(t, 300) for t in ctx.trace[-60:]]})
                if len(violations) >= 40:
                    break
        q.put(dict(cases=cases, n=dict(ctx.n), sigs=list(ctx.sigs),
                   samples=ctx.samples, violations=violations, errors=errors,
                   truncated=truncated, stats=dict(ctx.stats), tw=dict(tw),
                   slowest=slowest))
    except BaseException as ex:  # noqa: BLE001
        q.put(dict(cases=cases, n=dict(ctx.n), sigs=[], samples=[],
                   violations=violations, stats={}, tw={},
                   slowest=slowest,
                   errors=errors + [f'worker: {type(ex).__name__}: {ex} '
                                    + traceback.format_exc()[-1500:]],
                   truncated=True))


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--case', action='append')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.tier, a.seed = r['tier'], r['seed']
        only = {r['workload']: [r['index']]} if r.get('workload') else None
    if a.case:
        only = collections.defaultdict(list)
        for c in a.case:
            w, i = c.rsplit(':', 1)
            only[w].append(int(i))
    t0 = time.monotonic()
    try:
        return run_check(a, only, t0)
    finally:
        if _scratch is not None:
            shutil.rmtree(_scratch, ignore_errors=True)


def run_check(a, only, t0):
    pid = a.pid
    try:
        bootstrap()
        check = importlib.import_module('checks.' + pid.lower())
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f'INCONCLUSIVE property={pid} the code under test or the check '
              'cannot be loaded')
        return 2
    jobs = a.jobs or (1 if only else min(8, os.cpu_count() or 1))
    cap = getattr(check, 'CAP', {}).get(
        a.tier, 240.0 if a.tier == 'quick' else 700.0)
    deadline = t0 + cap
    scratch()
    mp = multiprocessing.get_context('fork')
    q = mp.Queue()
    procs = [mp.Process(target=worker,
                        args=(check, pid, a.tier, a.seed, k, jobs, deadline,
                              only, q)) for k in range(jobs)]
    for p in procs:
        p.start()
    results = []
    hard = deadline + 6 * CASE_WATCHDOG_S + 30
    while len(results) < jobs and time.monotonic() < hard:
        try:
            results.append(q.get(timeout=1.0))
        except Exception:  # noqa: BLE001
            if all(not p.is_alive() for p in procs):
                try:
                    while True:
                        results.append(q.get(timeout=0.5))
                except Exception:  # noqa: BLE001
                    break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    lost = jobs - len(results)
    n = collections.Counter()
    stats = collections.defaultdict(list)
    tw = collections.Counter()
    slowest = (0.0, None, None)
    sigs, samples, violations, errors = set(), [], [], []
    cases, truncated = 0, lost > 0
    for r in results:
        n.update(r['n'])
        tw.update(r['tw'])
        slowest = max(slowest, r['slowest'], key=lambda x: x[0])
        sigs.update(r['sigs'])
        samples += r['samples']
        violations += r['violations']
        errors += r['errors']
        cases += r['cases']
        truncated = truncated or r['truncated']
        for k_, v_ in r['stats'].items():
            stats[k_] += v_
    # -- offline checkers over the observations of the whole run ------------
    if only is None and hasattr(check, 'offline'):
        ctx = Ctx(pid, a.tier, a.seed)
        try:
            check.offline(ctx, stats)
        except Violated as v:
            violations.append({'workload': None, 'index': None,
                               'kind': v.kind, 'detail': v.detail,
                               'case': 'aggregate of the run', 'trace': []})
        except Exception:  # noqa: BLE001
            errors.append('offline: ' + traceback.format_exc()[-1500:])
        n.update(ctx.n)
    # -- known findings -----------------------------------------------------
    known = load_known(pid)
    new, hit = [], collections.Counter()
    for v in violations:
        for j, k in enumerate(known):
            if v['kind'] == k['kind'] and \
                    k.get('detail_contains', '') in v['detail']:
                hit[j] += 1
                break
        else:
            new.append(v)
    for j, k in enumerate(known):
        print(f'KNOWN-FINDING: property={pid} {k["what"]}'
              f' (seen {hit[j]} times in this run)')
    # -- inconclusive? ------------------------------------------------------
    missing = []
    if only is None:
        for name, least in getattr(check, 'REQUIRED', {}).items():
            seen = sum(c for m, c in n.items() if m.startswith(name[:-1])) \
                if name.endswith('*') else n[name]
            if seen < least:
                missing.append(f'{name}: {seen} < {least}')
    wall = time.monotonic() - t0
    if only is None:
        write_evidence(check, a, cases, sigs, samples, n, len(new), wall,
                       truncated, tw, hit, known)
    if a.verbose:
        for k_, v_ in sorted(n.items()):
            print(f'  {k_} = {v_}')
        print('  slowest case:', slowest)
        print('  time per workload:', {k: round(v, 2) for k, v in tw.items()})
    for e in errors[:5]:
        print('HARNESS-ERROR', e)
    print(f'{pid} tier={a.tier} seed={a.seed}: {cases} cases, '
          f'{len(sigs)} distinct non-trivial, '
          f'{sum(c for m, c in n.items() if m.startswith("monitor:"))} monitor'
          f' evaluations, {len(new)} violations, {wall:.1f} s'
          + (' (time cap reached)' if truncated else ''))
    if new:
        new.sort(key=lambda v: (len(v['case'] or ''), str(v['index'])))
        byk = collections.Counter(v['kind'] for v in new)
        v = new[0]
        os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
        path = os.path.join(EVIDENCE, 'replays',
                            f'{pid}-{a.tier}-{a.seed}.json')
        v.update(property=pid, tier=a.tier, seed=a.seed,
                 replay_cmd=f'/opt/venv/bin/python harness/run.py {pid} '
                            f'--replay {path}', kinds=dict(byk))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=plain)
        for kind, c in byk.most_common(6):
            w_ = next(x for x in new if x['kind'] == kind)
            print(f'  [{c}x] {kind} at {w_["workload"]}:{w_["index"]}: '
                  f'{w_["detail"][:700]}\n      case: {w_["case"][:500]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors or missing or lost or cases == 0 or \
            (n['inconclusive_cases'] > 0):
        print(f'INCONCLUSIVE property={pid} errors={len(errors)} '
              f'missing={missing} lost_workers={lost} '
              f'inconclusive_cases={n["inconclusive_cases"]}')
        return 2
    return 0


def plain(x):
    '''Numbers of numpy and anything else that json does not know.'''
    return x.item() if hasattr(x, 'item') and getattr(x, 'size', 1) == 1 \
        else str(x)


def write_evidence(check, a, cases, sigs, samples, n, nviol, wall, truncated,
                   tw, hit, known):
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage = {
        'evaluations': cases,
        'distinct_nontrivial': len(sigs),
        'rule': check.RULE,
        'samples': samples[:6] or [{'note': 'no non-trivial case'}],
        'monitor_evaluations': {k[8:]: c for k, c in sorted(n.items())
                                if k.startswith('monitor:')},
        'api_calls_observed': {k[5:]: c for k, c in sorted(n.items())
                               if k.startswith('call:')},
        'cases_per_workload': {k[6:]: c for k, c in sorted(n.items())
                               if k.startswith('cases:')},
        'other_events': {k: c for k, c in sorted(n.items()) if not
                         k.startswith(('monitor:', 'call:', 'cases:'))},
        'set_iteration_order': 'seeded' if HashControl.active else 'native',
        'time_cap_reached': truncated,
    }
    if known:
        coverage['known_findings_seen'] = {
            k['what']: hit[j] for j, k in enumerate(known)}
    ev = {'property': a.pid, 'tier': a.tier, 'seed': a.seed,
          'level': 'exploration', 'coverage': coverage,
          'assumptions': getattr(check, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 3), 'violations': nviol}
    path = os.path.join(EVIDENCE, f'{a.pid}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=plain)
    os.replace(path + '.tmp', path)
