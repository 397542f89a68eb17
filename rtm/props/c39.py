"""C39: independence of the circumstances of the process"""
import json
import os
import pickle
import py_compile
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings
import zipfile

import numpy as np

from rtm import catalog, circumstance
from rtm.env import REPO_SRC

TECHNIQUE = ('differential monitor: client processes started in all kinds of circumstances (interpreter options, hash seeds, '
             'locales, numpy settings, import orders, callers) against the same calls in the checking process; snapshots '
             'around the import')
TOL = 5e-13
MODULES = ['nvector', 'nvector.util', 'nvector.rotation', 'nvector.core', 'nvector.objects', 'nvector._common',
           'nvector._examples', 'nvector.license', 'nvector._info']
OPTIONS = [[], ['-O'], ['-OO'], ['-W', 'error'], ['-X', 'dev'], ['-bb'], ['-I'], ['-u'], ['-X', 'utf8=0'], ['-X', 'utf8=1'],
           ['-X', 'no_debug_ranges'], ['-q', '-E', '-s'], ['-P'], ['-OO', '-W', 'error'], ['-X', 'faulthandler'],
           ['-X', 'tracemalloc=3'], ['-X', 'warn_default_encoding'], ['-O', '-I', '-bb']]
BEFORE = ['seterr ignore', 'seterr warn', 'seterr call', 'seterr print', 'print options', 'legacy printing', 'seeds 0',
          'seeds 12345', 'filter ignore', 'filter always', 'filter once', 'filter default', 'filter module', 'locale C',
          'locale C.UTF-8', 'locale POSIX', 'decimal', 'no gc', 'eager gc', 'switching', 'no stdout', 'ascii stdout',
          'hidden arguments', 'digits', 'no directory', 'alarms', 'decoys']
AFTER = [n for n in BEFORE if n != 'decoys'] + ['no descriptors', 'no files']
ENVIRON = [('PYTHONHASHSEED', ('0', '1', '77', '4294967295', 'random')), ('LC_ALL', ('C', 'POSIX', 'C.UTF-8', 'tr_TR.UTF-8')),
           ('LANG', ('C', 'de_DE.UTF-8', '')), ('TZ', ('UTC', 'Pacific/Kiritimati', 'nonsense', '')), ('COLUMNS', ('1', '9999')),
           ('HOME', ('/nonexistent', '')), ('USER', ('', 'x')), ('TERM', ('dumb', '')), ('PYTHONOPTIMIZE', ('1', '2')),
           ('PYTHONUTF8', ('0', '1')), ('PYTHONIOENCODING', ('ascii', 'utf-16')), ('PYTHONWARNINGS', ('ignore', 'default', 'once')),
           ('NPY_DISABLE_CPU_FEATURES', ('',)), ('PATH', ('', '/nonexistent')), ('TMPDIR', ('/nonexistent',)),
           ('PYTHONMALLOC', ('debug', 'malloc')), ('MPLBACKEND', ('nonsense',)), ('DISPLAY', ('', ':99'))]
INSIDE = 24
PLACES = ['zip', 'spaces', 'bytecode']
ASSUMPTIONS = ('the circumstances are those this sandbox can provide: one interpreter, its C locales, no other platform',)


def circumstances(rng, idx):
    """(options, environment, spec) of a client process"""
    pick = lambda items, n: [items[i] for i in rng.choice(len(items), n, replace=False)]
    options = OPTIONS[idx % len(OPTIONS)] if idx % 3 else []
    env = {}
    for name, values in pick(ENVIRON, int(rng.integers(0, 6))):
        env[name] = str(values[rng.integers(len(values))])
    if rng.integers(2):
        env['PYTHONHASHSEED'] = str(int(rng.integers(2 ** 31)))
    order = pick(MODULES, int(rng.integers(1, 5))) if rng.integers(2) else ['nvector']
    within = sorted(circumstance.WITHIN)[rng.integers(len(circumstance.WITHIN))] if rng.integers(3) else None
    before = pick(BEFORE, int(rng.integers(0, 5)))
    after = pick(AFTER, int(rng.integers(0, 4)))
    if 'error' in options:
        before, after = [[n for n in names if not n.startswith('filter ')] for names in (before, after)]
        env.pop('PYTHONWARNINGS', None)
    spec = dict(order=order, twice=bool(rng.integers(6) == 0), fork=bool(rng.integers(5) == 0), within=within,
                before=before, after=after, record='error' not in options and bool(rng.integers(2)),
                compile='error' in options or bool(rng.integers(2)))
    return options, env, spec


def install(place, top):
    """the library as it is now, somewhere else: the entry of sys.path"""
    source = os.path.join(REPO_SRC, 'nvector')
    if place is None:
        return REPO_SRC
    if place == 'zip':
        home = os.path.join(top, 'library.zip')
        with zipfile.ZipFile(home, 'w') as z:
            for d, dirs, files in os.walk(source):
                dirs[:] = [n for n in dirs if n not in ('__pycache__', 'tests')]
                for name in files:
                    z.write(os.path.join(d, name), os.path.relpath(os.path.join(d, name), REPO_SRC))
        return home
    home = os.path.join(top, 'a place, "with" %s blanks', '1')
    shutil.copytree(source, os.path.join(home, 'nvector'), ignore=shutil.ignore_patterns('__pycache__', 'tests'))
    if place == 'bytecode':
        for d, _dirs, files in os.walk(home):
            for name in files:
                if name.endswith('.py'):
                    path = os.path.join(d, name)
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        py_compile.compile(path, path + 'c', doraise=True)
                    os.remove(path)
    return home


def listing(path):
    return sorted(os.path.relpath(os.path.join(d, f), path) for d, _dirs, files in os.walk(path) for f in files)


def process(ctx, rng, idx):
    options, env, spec = circumstances(rng, idx)
    first = int(rng.integers(10 ** 6))
    seed = int(rng.integers(2 ** 31))
    cases = list(range(first, first + INSIDE))
    place = PLACES[rng.integers(len(PLACES))] if rng.integers(4) == 0 else None
    spec.update(seed=seed, cases=cases)
    text = ' '.join(options + ['{}={}'.format(*kv) for kv in sorted(env.items())])
    info = (text, place, {k: v for k, v in spec.items() if k not in ('cases', 'seed')})
    top = tempfile.mkdtemp(prefix='rtm-c39.')
    try:
        cwd, home = os.path.join(top, 'cwd'), os.path.join(top, 'home')
        for d in (cwd, home, os.path.join(cwd, 'decoys')):
            os.mkdir(d)
        for name in ('util', 'core', 'rotation', 'objects', '_common', '_examples', '_info', 'plot', 'tests'):
            with open(os.path.join(cwd, 'decoys', name + '.py'), 'w') as fid:
                fid.write('raise ImportError("not this one")\n')
        spec['library'] = install(place, top)
        there = listing(top)
        # compiled anew in every run of the check, never from stale bytecode
        cache = os.path.join(os.environ.get('PYTHONPYCACHEPREFIX') or os.path.join(tempfile.gettempdir(), 'rtm-c39-pyc'),
                             'children' if os.environ.get('PYTHONPYCACHEPREFIX') else str(os.getppid()))
        base = dict((k, os.environ[k]) for k in os.environ if not k.startswith('PYTHON'))
        base.update(HOME=home, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
        base.update(env)
        r, w = os.pipe()
        argv = [sys.executable, '-X', 'pycache_prefix=' + cache] + options + [
            os.path.abspath(circumstance.__file__), json.dumps(spec), str(w)]
        child = subprocess.Popen(argv, cwd=cwd, env=base, pass_fds=[w], stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        os.close(w)
        box = []
        reader = threading.Thread(target=lambda: box.append(os.fdopen(r, 'rb').read()), daemon=True)
        reader.start()
        try:
            out, err = child.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            child.kill()
            raise
        reader.join(60)
        data = box[0] if box else b''
        ctx.events += INSIDE
        ctx.digest.update(repr((info, first, seed)).encode())
        ctx.trace.append(['client process', (text, info[1:]), {}, err[-1500:].decode('utf-8', 'replace')])
        ctx.true('the process ends normally', child.returncode == 0 and len(data) > 0, (info, child.returncode, err[-800:]))
        report = pickle.loads(data)
        ctx.eq('the library can be imported', report['imported'], None, info)
        ctx.eq('importing changes no settings', report['changed'], [], info)
        ctx.eq('nothing is printed', out, b'', info)
        made = [f for f in listing(top) if f not in there and f.split('/')[-2:-1] != ['__pycache__']]
        ctx.eq('no files are made', made, [], info)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    with np.errstate(all='warn'):
        want = circumstance.outcomes(ctx.nv, seed, cases)
    ctx.eq('all cases answered', len(report['found']), len(want), info)
    for i, ((got, warned), (expected, warnings)) in enumerate(zip(report['found'], want)):
        ctx.trace.append(['case {}'.format(cases[i]), (expected[1],), {}, got[2]])
        if 'error' in options and warnings:
            continue
        ctx.eq('calls succeed as usual', got[0], expected[0], (got[2], info))
        if warned is not None:
            said = [sorted((x[0], ' '.join(x[1].split())) for x in ws if x[0] != 'RuntimeWarning')
                    for ws in (warned, warnings)]
            ctx.eq('the same warnings', said[0], said[1], (expected[1], info))
        if got[0] == 'values':
            o = next(op for op in catalog.OPS if op.name == expected[1])
            ctx.eq('the same operation', got[1], expected[1])
            catalog.compare(ctx, 'same answers', o, got[2], expected[2], TOL, 6378137.0, info)
        elif got[0] == 'others':
            for name, answer in expected[2].items():
                ctx.eq('same refusals, copies and texts', got[2].get(name), answer, (name, info))
        else:
            ctx.eq('same failures', got, expected, info)
    ctx.tag('options: ' + ' '.join(options))
    ctx.tag('installed: {}'.format(place or 'as it is'))
    ctx.tag('called {}'.format(spec['within']))
    for name in spec['before'] + spec['after']:
        ctx.tag(name)
    for name in env:
        ctx.tag('environment ' + name)


RULE = 'Each case is a client process of its own; {} calls in it.'.format(INSIDE)
REQUIRE = ('the library can be imported', 'same refusals, copies and texts', 'nothing is printed', 'the same warnings')
WORKLOADS = [('process', process, 180, 4000)]
