"""
Workload driver, monitor context and verdicts.

A property module (rtm/props/cNN.py) lists WORKLOADS = [(name, case function, quick, thorough)].
Case i of a workload is a function of (VERIF_SEED, property, workload, i) alone, so each one can be
replayed by itself.  The cases run the real library; the monitors (Ctx.close, Ctx.true, ...) judge
what crosses the client boundary.  Verdict: violated (exit 1) / held (0) / inconclusive (2).
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import re
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

from rtm import env, tap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = min(8, os.cpu_count() or 1)
MAX_VIOLATIONS = 3      # per shard
LIMIT_S = {'quick': 600, 'thorough': 6 * 3600}


class Violated(Exception):
    def __init__(self, monitor, detail):
        Exception.__init__(self, monitor)
        self.monitor = monitor
        self.detail = detail


def brief(obj, limit=400):
    """short text of a value, exact for floats"""
    if isinstance(obj, np.ndarray):
        if obj.dtype == np.longdouble:
            obj = obj.astype(float)
        text = np.array2string(obj, threshold=60, separator=',', floatmode='unique',
                               max_line_width=10**6).replace('\n', '')
    elif hasattr(obj, '__dict__') and type(obj).__module__.startswith('nvector'):
        text = '{}({})'.format(type(obj).__name__, ','.join(
            '{}={}'.format(k, brief(v, limit)) for k, v in vars(obj).items()))
    elif isinstance(obj, (tuple, list)):
        text = '(' + ','.join(brief(o, limit) for o in obj) + ')'
    elif isinstance(obj, dict):
        text = '{' + ','.join('{}:{}'.format(k, brief(v, limit)) for k, v in obj.items()) + '}'
    else:
        text = repr(obj)
    return text if len(text) <= limit else text[:limit] + '...'


def feed(h, obj):
    if isinstance(obj, np.ndarray):
        h.update(str(obj.shape).encode())
        h.update(np.ascontiguousarray(obj).tobytes() if obj.dtype != object else repr(obj).encode())
    elif isinstance(obj, (tuple, list)):
        for o in obj:
            feed(h, o)
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            h.update(str(k).encode())
            feed(h, obj[k])
    elif hasattr(obj, '__dict__') and type(obj).__module__.startswith('nvector'):
        feed(h, vars(obj))
    elif callable(obj):
        h.update(getattr(obj, '__name__', '?').encode())
    else:
        h.update(repr(obj).encode())


class Ctx(object):
    """What a case sees: the library, the event recorder and the monitors."""

    def __init__(self, nv, prop, tier):
        self.nv = nv
        self.prop = prop
        self.tier = tier
        self.monitors = collections.Counter()
        self.worst = {}
        self.tags = collections.Counter()
        self.events = 0
        self.raised = collections.Counter()
        self.trace = None

    def begin(self):
        self.trace = collections.deque(maxlen=40)
        self.digest = hashlib.blake2b(digest_size=8)
        self.judged = 0

    # -- events ------------------------------------------------------------------------------
    def do(self, label, fn, *args, **kwds):
        """client call; an exception is a violation"""
        self.events += 1
        feed(self.digest, (label, args, kwds))
        event = [label, args, kwds, None]
        self.trace.append(event)
        try:
            result = fn(*args, **kwds)
        except Exception as error:
            event[3] = error
            raise Violated('no-exception', '{} raised {!r}'.format(label, error))
        event[3] = result
        return result

    def raises(self, name, errors, fn, *args, **kwds):
        """client call which must raise one of `errors`"""
        self.events += 1
        self._count(name)
        feed(self.digest, (name, args, kwds))
        event = [name, args, kwds, None]
        self.trace.append(event)
        try:
            result = fn(*args, **kwds)
        except errors as error:
            event[3] = error
            self.raised[type(error).__name__] += 1
            return
        except Exception as error:
            event[3] = error
            raise Violated(name, 'raised {!r} instead of {}'.format(error, errors))
        event[3] = result
        raise Violated(name, 'no exception, returned ' + brief(result))

    def attempt(self, label, fn, *args, **kwds):
        """client call; returns (result, error)"""
        self.events += 1
        feed(self.digest, (label, args, kwds))
        event = [label, args, kwds, None]
        self.trace.append(event)
        try:
            result = fn(*args, **kwds)
        except Exception as error:
            event[3] = error
            self.raised[type(error).__name__] += 1
            return None, error
        event[3] = result
        return result, None

    def warned(self, label, fn, *args, **kwds):
        """client call; returns (result, list of warnings)"""
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            result = self.do(label, fn, *args, **kwds)
        return result, [w for w in caught if not issubclass(w.category, DeprecationWarning)]

    # -- monitors ----------------------------------------------------------------------------
    def _count(self, name, n=1):
        self.monitors[name] += n
        self.judged += n

    def true(self, name, cond, info=None):
        self._count(name)
        if not np.all(cond):
            raise Violated(name, 'condition is false; ' + brief(info))

    def eq(self, name, got, want, info=None):
        self._count(name)
        if not (got == want):
            raise Violated(name, 'got {}, expected {}; {}'.format(brief(got), brief(want), brief(info)))

    def shape(self, name, got, want):
        self._count(name)
        if np.shape(got) != tuple(want):
            raise Violated(name, 'shape {} instead of {}: {}'.format(np.shape(got), tuple(want), brief(got)))

    def close(self, name, got, want, tol, info=None, shape=True):
        """|got - want| <= tol elementwise, NaN exactly where expected, same shape"""
        got = np.asarray(got)
        want = np.asarray(want, dtype=np.longdouble)
        if shape and got.shape != want.shape:
            self._count(name)
            raise Violated(name, 'shape {} instead of {}: got {}; {}'.format(
                got.shape, want.shape, brief(got), brief(info)))
        err = np.abs(got.astype(np.longdouble) - want)
        self._judge(name, err, got, want, tol, info)

    def close_ang(self, name, got, want, tol, info=None, shape=True):
        """as close, modulo full turns"""
        got = np.asarray(got)
        want = np.asarray(want, dtype=np.longdouble)
        if shape and got.shape != want.shape:
            self._count(name)
            raise Violated(name, 'shape {} instead of {}: got {}; {}'.format(
                got.shape, want.shape, brief(got), brief(info)))
        from rtm import ref
        err = np.abs(ref.wrap(got.astype(np.longdouble) - want))
        self._judge(name, err, got, want, tol, info)

    def _judge(self, name, err, got, want, tol, info):
        self._count(name, max(1, int(np.size(err))))
        tol = np.broadcast_to(np.asarray(tol, dtype=np.longdouble), err.shape)
        nan_ok = np.isnan(want)
        bad = np.where(nan_ok, ~np.isnan(got), ~(err <= tol))
        if err.size:
            with np.errstate(all='ignore'):
                ratio = np.where(nan_ok | (err == 0), 0, err / tol)
            ratio = ratio[np.isfinite(ratio)]
            if ratio.size:
                self.worst[name] = max(self.worst.get(name, 0.0), float(ratio.max()))
        if np.any(bad):
            k = tuple(int(i[0]) for i in np.nonzero(np.atleast_1d(bad)))
            pick = (lambda x: np.atleast_1d(np.broadcast_to(x, err.shape))[k])
            raise Violated(name, 'at {}: got {!r}, expected {!r}, error {:.3g}, tolerance {:.3g}; got={} want={}; {}'
                           .format(k, float(pick(got)), float(pick(want)), float(pick(err)), float(pick(tol)),
                                   brief(got), brief(want), brief(info)))

    def tag(self, name, n=1):
        self.tags[name] += int(n)


def rng_for(seed, prop, workload, idx):
    return np.random.default_rng([int(seed), zlib.crc32('{}/{}'.format(prop, workload).encode()), int(idx)])


def module_of(prop):
    return importlib.import_module('rtm.props.' + prop.lower())


def run_case(ctx, seed, workload, fn, idx):
    """None or (monitor, detail, trace text)"""
    ctx.begin()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                fn(ctx, rng_for(seed, ctx.prop, workload, idx), idx)
    except Violated as v:
        monitor, detail = v.monitor, v.detail
    except Exception:
        # on the unchanged tree no oracle ever fails to interpret a result
        monitor, detail = 'result-is-interpretable', traceback.format_exc()
    else:
        return None
    trace = ['{}({}{}) -> {}'.format(label, brief(args, 1500)[1:-1],
                                     ', ' + brief(kwds, 500) if kwds else '', brief(result, 1500))
             for label, args, kwds, result in ctx.trace]
    return monitor, detail, trace


def shard(prop, tier, seed, k, conn):
    nv = env.load()
    tap.install(nv)
    mod = module_of(prop)
    ctx = Ctx(nv, prop, tier)
    out = dict(violations=[], digests=set(), samples=[], cases=0, per_workload=collections.Counter(),
               nontrivial=0)
    done = False
    for name, fn, quick, thorough in mod.WORKLOADS:
        total = quick if tier == 'quick' else thorough
        for idx in range(k, total, WORKERS):
            result = run_case(ctx, seed, name, fn, idx)
            out['cases'] += 1
            out['per_workload'][name] += 1
            if ctx.judged:
                out['nontrivial'] += 1
                out['digests'].add(ctx.digest.digest())
            if result is not None:
                out['violations'].append((name, idx) + result)
                if len(out['violations']) >= MAX_VIOLATIONS:
                    done = True
                    break
            elif k == 0 and idx == 0 and ctx.trace:
                label, args, kwds, res = ctx.trace[0]
                out['samples'].append('{} case {}: {}({}) -> {}'.format(
                    name, idx, label, brief(args, 300)[1:-1], brief(res, 300)))
        if done:
            break
    calls, nested, nan_born = tap.snapshot()
    out.update(monitors=ctx.monitors, worst=ctx.worst, tags=ctx.tags, events=ctx.events,
               raised=ctx.raised, calls=calls, nested=nested, nan_born=nan_born)
    conn.send(out)
    conn.close()


def known_findings():
    """open findings: (property, workload or *, monitor, text)"""
    path = os.path.join(VERIF, 'known_findings.txt')
    found = []
    if os.path.exists(path):
        with open(path) as fid:
            for line in fid:
                m = re.match(r'open: property=(\w+) workload=(\S+) monitor=(\S+) (.*)', line)
                if m:
                    found.append(m.groups())
    return found


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start = time.time()
    mod = module_of(prop)
    env.load()
    mp = multiprocessing.get_context('fork')
    procs = []
    for k in range(WORKERS):
        r, w = mp.Pipe(duplex=False)
        p = mp.Process(target=shard, args=(prop, tier, seed, k, w), daemon=True)
        p.start()
        w.close()
        procs.append((p, r))
    parts, problem = [], None
    for p, r in procs:
        left = max(1.0, LIMIT_S[tier] - (time.time() - start))
        try:
            if r.poll(left):
                parts.append(r.recv())
            else:
                problem = 'watchdog: a shard did not finish in {} s'.format(LIMIT_S[tier])
        except EOFError:
            problem = 'a shard died'
        if problem:
            break
    for p, r in procs:
        if problem:
            p.kill()
        p.join()

    total = dict(monitors=collections.Counter(), tags=collections.Counter(), calls=collections.Counter(),
                 nested=collections.Counter(), nan_born=collections.Counter(), raised=collections.Counter(),
                 per_workload=collections.Counter())
    digests, worst, violations, samples = set(), {}, [], []
    events = cases = nontrivial = 0
    for part in parts:
        for key in total:
            total[key].update(part[key])
        digests |= part['digests']
        events += part['events']
        cases += part['cases']
        nontrivial += part['nontrivial']
        violations += part['violations']
        samples += part['samples']
        for key, val in part['worst'].items():
            worst[key] = max(worst.get(key, 0.0), val)

    known = known_findings()
    unlisted, listed = [], []
    for v in violations:
        match = [kf for kf in known if kf[0] == prop and kf[1] in ('*', v[0]) and kf[2] == v[2]]
        (listed if match else unlisted).append((v, match))
    silent = [m for m in getattr(mod, 'REQUIRE', ()) if not total['monitors'].get(m)]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=cases,
            distinct_nontrivial=len(digests),
            rule=('A case is one generated client history, a function of (seed, workload, index): inputs come from '
                  'the hostile generators in rtm/gen.py, the real library is run and the monitors judge '
                  'what it returned. Non-trivial: at least one monitor evaluated; distinct: digest of all arguments '
                  'of all client calls of the case. ' + (getattr(mod, 'RULE', '') or '')).strip(),
            samples=samples[:12],
            client_events=events,
            judged_values=sum(total['monitors'].values()),
            cases_per_workload=dict(sorted(total['per_workload'].items())),
            monitor_evaluations=dict(sorted(total['monitors'].items())),
            worst_error_over_tolerance={k: round(v, 6) for k, v in sorted(worst.items())},
            input_classes=dict(sorted(total['tags'].items())),
            library_calls_observed=dict(sorted(total['calls'].items())),
            of_which_nested=sum(total['nested'].values()),
            nan_results_from_finite_arguments=dict(sorted(total['nan_born'].items())),
            expected_exceptions=dict(sorted(total['raised'].items()))),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', ())) + [
            'the reference model in rtm/ref.py (80-bit arithmetic), numpy, and where used pyproj/scipy are right'],
        wall_s=round(time.time() - start, 3),
        violations=len(unlisted))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fid:
        json.dump(evidence, fid, indent=1, sort_keys=True)
        fid.write('\n')

    for (v, match) in listed:
        print('KNOWN-FINDING: property={} {}'.format(prop, match[0][3]))
    if unlisted:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for n, (v, _match) in enumerate(unlisted[:5]):
            workload, idx, monitor, detail, trace = v
            path = os.path.join(VERIF, 'replays', '{}-{}-{}.json'.format(prop, workload, idx))
            with open(path, 'w') as fid:
                json.dump(dict(property=prop, seed=seed, tier=tier, workload=workload, case=idx, monitor=monitor,
                               detail=detail, events=trace,
                               replay='cd /verif && ./check --replay ' + path), fid, indent=1)
            print('{} {} case {}: monitor {}: {}'.format(prop, workload, idx, monitor, detail))
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if problem:
        print('INCONCLUSIVE property={} {}'.format(prop, problem))
        return 2
    if silent or not cases:
        print('INCONCLUSIVE property={} monitors never reached: {}'.format(prop, silent))
        return 2
    print('HELD property={} tier={} seed={} cases={} events={} judged={} worst={:.3f} wall={:.1f}s'.format(
        prop, tier, seed, cases, events, sum(total['monitors'].values()),
        max(list(worst.values()) or [0]), time.time() - start))
    return 0


def replay(path):
    with open(path) as fid:
        rec = json.load(fid)
    nv = env.load()
    tap.install(nv)
    mod = module_of(rec['property'])
    ctx = Ctx(nv, rec['property'], rec['tier'])
    for name, fn, _q, _t in mod.WORKLOADS:
        if name == rec['workload']:
            result = run_case(ctx, rec['seed'], name, fn, rec['case'])
            if result is None:
                print('held')
                return 0
            monitor, detail, trace = result
            print('\n'.join(trace))
            print('monitor {}: {}'.format(monitor, detail))
            print('VIOLATION property={} replay={}'.format(rec['property'], path))
            return 1
    raise KeyError(rec['workload'])
