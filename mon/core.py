"""Runner for the runtime monitors: executes seeded workloads against the code
in /repo in worker processes, collects what the monitors observed, writes
evidence and replays, and turns the outcome into the exit code contract."""
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    def __init__(self, key, msg, detail=None):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class CaseTimeout(Exception):
    pass


class Obs:
    """What the monitors saw while one case ran."""

    def __init__(self, case, scratch):
        self.case = case
        self.rng = random.Random(case.get('seed', 0))
        self.scratch = scratch
        self.counts = Counter()
        self.states = set()
        self.violations = []
        self.sample = None
        self.nontrivial = None

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def state(self, *sig):
        self.states.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def fail(self, key, msg, **detail):
        self.violations.append(dict(key=key, msg=str(msg)[:2000], detail=_short(detail)))

    def check(self, cond, key, msg, **detail):
        self.count('checks')
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)

    @contextlib.contextmanager
    def expect_raise(self, key, msg, exc=Exception):
        """The code must refuse: raise `exc`."""
        self.count('refusals_expected')
        try:
            yield
        except exc:
            self.count('refusals_seen')
            return
        self.fail(key, msg)


def _short(o):
    try:
        s = json.dumps(o, default=repr)
    except Exception:
        s = repr(o)
    return s if len(s) < 4000 else s[:4000] + '...'


def _alarm(signum, frame):
    raise CaseTimeout()


_MOD = None
_SCRATCH = None


def _run_one(case):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='case', dir=_SCRATCH)
    obs = Obs(case, scratch)
    err = None
    cwd = os.getcwd()
    # processor time, so that a loaded machine cannot cause a verdict
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, float(getattr(_MOD, 'CASE_TIMEOUT', 150)))
    try:
        import numpy as np
        from mon import gen
        np.random.seed(case.get('seed', 0) % (2 ** 32))
        random.seed(case.get('seed', 0))
        os.chdir(scratch)
        gen.set_dates(case.get('seed', 0))
        gen.set_size(bool(case.get('big')))
        if gen.BIG:
            obs.count('big_cases')
        _MOD.run_case(case, obs)
    except Violation as v:
        obs.fail(v.key, v.msg, detail=v.detail)
    except CaseTimeout:
        obs.fail('timeout', 'the operation did not finish within %s s of processor time' % getattr(_MOD, 'CASE_TIMEOUT', 150))
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        where = [f for f in traceback.extract_tb(e.__traceback__)]
        insut = any(f.filename.startswith(REPO + '/') for f in where)
        last = next((f for f in reversed(where) if f.filename.startswith(REPO + '/')), where[-1])
        obs.fail('exception:%s' % type(e).__name__,
                 '%s on a valid workload: %s: %s (at %s:%s %s)' % (
                     'unexpected exception' if insut else 'result could not be interpreted',
                     type(e).__name__, e, os.path.basename(last.filename), last.lineno, last.name), traceback=tb[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(case=case, counts=dict(obs.counts), states=sorted(obs.states),
                violations=obs.violations, sample=obs.sample,
                nontrivial=obs.nontrivial, secs=time.time() - t0)


def _init_worker():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def load_findings(prop):
    known = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('known: '):
                parts = line[len('known: '):].split(' ', 2)
                d = dict(p.split('=', 1) for p in parts[:2])
                if d.get('property') == prop:
                    known.append((d['key'], parts[2] if len(parts) > 2 else ''))
    return known


def main(prop, argv):
    global _MOD, _SCRATCH
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    replay = None
    i = 0
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]; i += 2
        elif argv[i] == '--seed':
            seed = int(argv[i + 1]); i += 2
        elif argv[i] == '--replay':
            replay = argv[i + 1]; i += 2
        else:
            raise SystemExit('unknown argument ' + argv[i])
    _SCRATCH = tempfile.mkdtemp(prefix='verifmon_')
    os.environ['MPLCONFIGDIR'] = os.path.join(_SCRATCH, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    os.environ['TMPDIR'] = _SCRATCH
    tempfile.tempdir = _SCRATCH
    try:
        return _main(prop, seed, tier, replay, t0)
    finally:
        shutil.rmtree(_SCRATCH, ignore_errors=True)


def _main(prop, seed, tier, replay, t0):
    global _MOD
    import logging
    import warnings
    warnings.simplefilter('ignore')
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)
    import_error = None
    try:
        import meshiphi
        assert os.path.realpath(meshiphi.__file__).startswith(os.path.realpath(REPO)), meshiphi.__file__
        _MOD = importlib.import_module('mon.props.%s' % prop.lower())
    except AssertionError:
        raise
    except Exception:
        import_error = traceback.format_exc()
    logging.disable(logging.CRITICAL)
    results = []
    if import_error is None:
        if replay:
            cases = [json.load(open(replay))['case']]
        else:
            cases = _MOD.cases(tier, seed)
            step = getattr(_MOD, 'BIG', 0)
            for c in cases[::step] if step else []:
                c['big'] = True
            cases.sort(key=lambda c: not c.get('big'))
        budget = float(os.environ.get('VERIF_BUDGET', 0)) or (600.0 if tier == 'quick' else 3600.0)
        nproc = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
        skipped = broken = 0
        listed = {k for k, _ in load_findings(prop)}
        ctx = mp.get_context('fork')
        with ctx.Pool(nproc, initializer=_init_worker, maxtasksperchild=getattr(_MOD, 'TASKS_PER_CHILD', 200)) as pool:
            it = pool.imap_unordered(_run_one, cases, chunksize=1)
            deadline = t0 + budget
            done = 0
            while done < len(cases):
                try:
                    r = it.next(timeout=max(1.0, deadline - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    skipped = len(cases) - done
                    break
                results.append(r)
                done += 1
                # enough evidence of breakage: stop early
                broken += bool({v['key'] for v in r['violations']} - listed)
                if broken >= (1 if os.environ.get('VERIF_FAILFAST') else 40):
                    skipped = len(cases) - done
                    break
            pool.terminate()
    else:
        cases, skipped = [], 0
        results = [dict(case={'kind': 'import'}, counts={}, states=[], sample=None, nontrivial=False, secs=0,
                        violations=[dict(key='import', msg='the code cannot be imported', detail=import_error[-3000:])])]
    results.sort(key=lambda r: json.dumps(r['case'], sort_keys=True, default=str))
    counts = Counter()
    states = set()
    nontriv = 0
    kinds = Counter()
    for r in results:
        counts.update(r['counts'])
        states.update(r['states'])
        kinds[r['case'].get('kind', '?')] += 1
        nt = r['nontrivial']
        if nt is None:
            nt = r['counts'].get('checks', 0) > 0
        nontriv += bool(nt)
    known = load_findings(prop)
    knownkeys = {k for k, _ in known}
    new, seen_known = [], Counter()
    for r in results:
        for v in r['violations']:
            if v['key'] in knownkeys:
                seen_known[v['key']] += 1
            else:
                new.append((r['case'], v))
    for k, what in known:
        print('KNOWN-FINDING: property=%s key=%s %s (seen %d times in this run)' % (prop, k, what, seen_known[k]))
    minobs = {} if (replay or import_error) else getattr(_MOD, 'MIN_OBS', {})
    blind = [k for k, n in minobs.items() if counts.get(k, 0) < n]
    samples = [r['sample'] for r in results if r['sample'] is not None][:4] or [r['case'] for r in results[:3]]
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=min(nontriv, len({json.dumps(r['case'], sort_keys=True, default=str) for r in results if (r['nontrivial'] if r['nontrivial'] is not None else r['counts'].get('checks', 0) > 0)})),
                            rule=(getattr(_MOD, 'RULE', '') or (_MOD.__doc__ or '').strip() if _MOD else 'import failed'),
                            samples=json.loads(json.dumps(samples, default=repr)),
                            monitor_events=dict(sorted(counts.items())), distinct_states_observed=len(states),
                            case_kinds=dict(sorted(kinds.items())), cases_planned=len(cases), cases_skipped_by_time_limit=skipped,
                            known_findings_seen=dict(seen_known)),
              assumptions=list(getattr(_MOD, 'ASSUMPTIONS', [])) if _MOD else [],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        path = os.path.join(evdir, 'replays', '%s-seed%d.json' % (prop, seed))
        case, v = new[0]
        with open(path, 'w') as f:
            json.dump(dict(property=prop, case=case, violation=v, tier=tier, seed=seed,
                           others=[dict(case=c, violation=x) for c, x in new[1:15]]), f, indent=1, default=repr)
        keys = Counter(v['key'] for _, v in new)
        print('%d violations in %d of %d cases; kinds: %s' % (len(new), len({json.dumps(c, sort_keys=True, default=str) for c, _ in new}), len(results), dict(keys)))
        shown = set()
        for c, x in new:
            if x['key'] in shown:
                continue
            shown.add(x['key'])
            print('  [%s] %s' % (x['key'], x['msg'][:400]))
            print('     case %s' % json.dumps(c, default=repr)[:300])
            if len(shown) >= 8:
                break
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if blind:
        print('INCONCLUSIVE: monitors observed too little: %s (have %s)' % (blind, {k: counts.get(k, 0) for k in blind}))
        return 2
    print('OK %s tier=%s seed=%d cases=%d nontrivial=%d states=%d checks=%d wall=%.1fs' % (
        prop, tier, seed, len(results), nontriv, len(states), counts.get('checks', 0), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(ev['coverage']['monitor_events']))
        sl = sorted(results, key=lambda r: -r['secs'])[:5]
        print([(round(r['secs'], 1), r['case']) for r in sl])
    return 0


def mkcases(prop, kinds, tier, seed, quick, thorough):
    """kinds: list of (kind, weight). Deterministic list of seeded cases."""
    n = quick if tier == 'quick' else thorough
    tot = sum(w for _, w in kinds)
    out = []
    for kind, w in kinds:
        for i in range(max(1, round(n * w / tot))):
            h = hashlib.sha256(('%s/%s/%d/%d' % (prop, kind, seed, i)).encode()).digest()
            out.append(dict(kind=kind, i=i, seed=int.from_bytes(h[:6], 'big')))
    rnd = random.Random(seed)
    rnd.shuffle(out)
    return out
