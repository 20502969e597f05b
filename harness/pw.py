"""Infrastructure shared by all checks: environment, scratch space, TLC, verdicts, evidence."""
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('PYWV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
NULL = '\\N'
CORES = min(8, os.cpu_count() or 1)

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def scale(quick, thorough):
    return thorough if THOROUGH else quick


class HarnessError(Exception):
    """The machinery failed (not the code under test)."""


class Timeout(BaseException):
    """The code under test did not finish in time."""


# ---------------------------------------------------------------- environment

def ensure_env():
    """Re-execute under the interpreter and the locale the project's tests use."""
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    want = {'LC_ALL': 'en_US.UTF-8', 'LANG': 'en_US.UTF-8', 'PYTHONHASHSEED': '0',
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONUTF8': '1', 'PYWV_ENV': '1'}
    if os.environ.get('PYWV_ENV') != '1':
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME', 'DISPLAY', 'LANGUAGE')}
        env.update(want)
        os.execve(py, [py] + sys.argv, env)
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    for name in list(os.environ):
        if name == 'LANGUAGE':
            del os.environ[name]
    import locale
    locale.setlocale(locale.LC_ALL, 'en_US.UTF-8')


_scratch = None


def scratch():
    """Return this run's scratch directory (removed at exit by the process that made it)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='pywv-')
        owner = os.getpid()

        def cleanup(path=_scratch):
            if os.getpid() == owner:
                os.chdir('/')
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(cleanup)
        tmp = os.path.join(_scratch, 'tmp')
        os.mkdir(tmp)
        os.environ['TMPDIR'] = tmp
        tempfile.tempdir = None
        os.chdir(_scratch)
    return _scratch


def workdir(name):
    path = os.path.join(scratch(), name)
    os.makedirs(path, exist_ok=True)
    return path


# ---------------------------------------------------------------- running the code under test

class _Alarm:

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):

        def fire(signum, frame):
            raise Timeout()

        self.old = signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


hangs = 0


def outcome(func, *args, seconds=20):
    """Call the code under test; return (kind, value): 'ok', 'Error', 'exc:<type>' or 'hang'."""
    from pywriter.pywriter_globals import Error
    global hangs
    try:
        # a program that hangs again and again need not be waited for
        with _Alarm(seconds if hangs < 3 else 2):
            return 'ok', func(*args)
    except Error as ex:
        return 'Error', str(ex)
    except Timeout:
        hangs += 1
        return 'hang', ''
    except Exception as ex:
        return f'exc:{type(ex).__name__}', str(ex)


def crash_site(ex):
    """Return the location in the code under test where an exception came from, or None."""
    site = None
    for fr in traceback.extract_tb(ex.__traceback__):
        if fr.filename.startswith(SRC):
            site = f'{os.path.relpath(fr.filename, SRC)}:{fr.lineno} {fr.name}'
    if site is None and type(ex).__name__ in UNREADABLE:
        # what the program has written cannot be read back
        fr = traceback.extract_tb(ex.__traceback__)[-1]
        site = f'{os.path.basename(fr.filename)}:{fr.lineno} {fr.name}'
    return site


UNREADABLE = ('ParseError', 'BadZipFile', 'UnicodeDecodeError', 'JSONDecodeError')


class Hang(Exception):
    """The program does not come to an end."""


def alarm(signum, frame):
    raise Hang('no end after a long time')


def parallel(func, items, seconds=600):
    """Apply func to the items in forked workers; return the results in order.

    Each worker has its own scratch directory as its working directory.
    A worker that dies or hangs is a machinery failure: code under test is guarded in func.
    """
    items = list(items)
    if not items:
        return []
    base = workdir('par')
    n = min(CORES, len(items))
    pids = []
    sys.stdout.flush()
    for w in range(n):
        out = os.path.join(base, f'out{w}.json')
        if os.path.exists(out):
            os.remove(out)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                wd = os.path.join(base, f'w{w}')
                os.makedirs(wd, exist_ok=True)
                os.chdir(wd)
                tmp = os.path.join(wd, 'tmp')
                os.makedirs(tmp, exist_ok=True)
                os.environ['TMPDIR'] = tmp
                tempfile.tempdir = tmp
                res = []
                hung = None
                signal.signal(signal.SIGALRM, alarm)
                for i in range(w, len(items), n):
                    if hung:
                        res.append([i, hung])
                        continue
                    os.chdir(wd)
                    try:
                        signal.alarm(200)
                        r = func(items[i])
                        signal.alarm(0)
                    except Exception as ex:
                        where = crash_site(ex)
                        if where is None:
                            raise
                        signal.alarm(0)
                        r = {'@crash': f'{type(ex).__name__}: {ex} at {where}'}
                        if isinstance(ex, Hang):
                            hung = r
                    res.append([i, r])
                with open(out, 'w', encoding='utf-8', errors='surrogatepass') as f:
                    json.dump(res, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append((pid, out))
    deadline = time.time() + seconds
    failed = False
    for pid, __ in pids:
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                failed = failed or st != 0
                break
            if time.time() > deadline:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                failed = True
                break
            time.sleep(0.01)
    if failed:
        raise HarnessError('a worker failed')
    results = [None] * len(items)
    for __, out in pids:
        with open(out, encoding='utf-8', errors='surrogatepass') as f:
            for i, r in json.load(f):
                results[i] = r
    return results


def elsewhere(func, items):
    """Like parallel, in a process where text files are ASCII unless a program says otherwise (as they are not UTF-8 on Windows)."""
    items = list(items)
    if not items:
        return []
    home = tempfile.mkdtemp(prefix='c-', dir=scratch())
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONUTF8'}
    env.update({'PYTHONUTF8': '0', 'PYTHONIOENCODING': 'utf-8', 'TMPDIR': home})
    out = os.path.join(home, 'results.json')
    job = {'module': func.__module__, 'func': func.__name__, 'items': items, 'out': out}
    r = subprocess.run([sys.executable, '-c', 'import pw; pw._there()'], input=json.dumps(job), env=dict(env, PYTHONPATH=os.pathsep.join([SRC, os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')])),
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, encoding='utf-8', errors='replace')
    if r.returncode:
        raise HarnessError('a process under another locale failed: ' + r.stderr[-500:])
    with open(out, encoding='utf-8', errors='surrogatepass') as f:
        return json.load(f)


def _there():
    """Do the job given by elsewhere."""
    import importlib
    import locale
    locale.setlocale(locale.LC_ALL, 'C')
    assert 'UTF' not in locale.getencoding().upper()
    job = json.load(sys.stdin)
    func = getattr(importlib.import_module(job['module']), job['func'])
    scratch()
    results = parallel(func, job['items'])
    with open(job['out'], 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(results, f)


# ---------------------------------------------------------------- TLC

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcResult:

    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.bad = re.findall(r'^"@BAD (\d+) (\d+) (.*)"$', out, re.MULTILINE)
        self.info = re.findall(r'^"@INFO (.*)"$', out, re.MULTILINE)


def tlc(module, cfg=None, env=None, workers=CORES, timeout=800, heap='6g', extra=(), deadlock=True):
    """Run TLC on spec/<module>.tla; return a TlcResult. Raise HarnessError if TLC itself fails."""
    wd = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    for name in os.listdir(SPEC):
        if name.endswith(('.tla', '.cfg')):
            shutil.copy(os.path.join(SPEC, name), wd)
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           f'-Djava.io.tmpdir={wd}', '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', os.path.join(wd, 'states'), '-config', cfg or f'{module}.cfg', *extra, f'{module}.tla']
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError(f'TLC timed out on {module}')
    out = p.stdout.decode('utf-8', 'replace')
    shutil.rmtree(wd, ignore_errors=True)
    return TlcResult(p.returncode, out)


def write_ndjson(path, records):
    with open(path, 'w', encoding='utf-8') as f:
        for r in records:
            f.write(json.dumps(r, ensure_ascii=False) + '\n')


def judge(module, traces, cfg=None, env=None, timeout=800, size=None, chunk=400, jobs=2):
    """Validate recorded traces against a trace specification.

    Return (verdicts, TlcResult); a verdict is (trace index, event index, clause).
    Every event of every trace must have been consumed, or the machinery has failed.
    """
    import concurrent.futures
    size = size or (lambda t: len(t['ev']) + 1)

    def one(lo):
        part = traces[lo:lo + chunk]
        path = os.path.join(scratch(), f'{module}-{lo}-{time.time_ns()}.ndjson')
        write_ndjson(path, part)
        e = {'TRACE': path}
        e.update(env or {})
        res = tlc(module, cfg=cfg, env=e, timeout=timeout, workers=max(2, CORES // n), heap=f'{12 // n}g')
        os.remove(path)
        expect = sum(size(t) for t in part)
        if res.rc != 0 or res.distinct != expect:
            raise HarnessError(f'TLC failed on {module}: rc={res.rc}, {res.distinct} distinct states of {expect}\n'
                               + '\n'.join(l for l in res.out.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting')))[-6000:])
        return lo, res

    starts = list(range(0, len(traces), chunk))
    n = max(1, min(jobs, len(starts)))
    verdicts, total = set(), None
    with concurrent.futures.ThreadPoolExecutor(n) as pool:
        for lo, res in pool.map(one, starts):
            verdicts |= {(lo + int(t) - 1, int(l) - 1, c) for t, l, c in res.bad}
            if total is None:
                total = res
            else:
                total.generated += res.generated
                total.distinct += res.distinct
    return sorted(verdicts), total


def model_check(module, cfg=None, env=None, timeout=800, min_states=1, extra=()):
    """Check a model exhaustively. A violated invariant of the design is a machinery failure here:
    the specification is part of the framework, and it is expected to be consistent."""
    res = tlc(module, cfg=cfg, env=env, timeout=timeout, extra=extra)
    if res.rc != 0 or res.distinct < min_states or 'Model checking completed. No error has been found.' not in res.out:
        raise HarnessError(f'model {module}/{cfg}: rc={res.rc}\n'
                           + '\n'.join(l for l in res.out.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting')))[-6000:])
    return res


# ---------------------------------------------------------------- verdicts and evidence

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    found = {}
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'^known: property=(\S+) signature=(\S+) (.*)$', line.rstrip('\n'))
                if m and m.group(1) == prop:
                    found[m.group(2)] = m.group(3)
    return found


class Check:
    """Collects what a check has covered, and its verdict."""

    def __init__(self, prop, level, seed=SEED):
        self.prop = prop
        self.level = level
        self.seed = seed
        self.t0 = time.time()
        self.cov = {'samples': []}
        self.assumptions = []
        self.violations = []  # (signature, description, replay data)
        self.design = []

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, value, limit=5):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(value)

    def add_tlc(self, res, traces=0):
        self.count(states=res.distinct, transitions=res.generated)
        if traces:
            self.count(traces_validated_against_impl=traces)

    def violate(self, signature, description, data):
        self.violations.append((re.sub(r'\s+', '_', signature), description, data))

    def finish(self):
        known = known_findings(self.prop)
        new, seen = [], set()
        for sig, desc, data in self.violations:
            if sig in known:
                if sig not in seen:
                    print(f'KNOWN-FINDING: property={self.prop} {sig} {known[sig]}')
                    seen.add(sig)
            else:
                new.append((sig, desc, data))
        evdir = os.environ.get('PYWV_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        self.cov['samples'] = [s if len(json.dumps(s, ensure_ascii=False)) < 3000 else json.dumps(s, ensure_ascii=False)[:3000]
                               for s in self.cov['samples']]
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': self.seed,
              'level': self.level, 'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(evdir, f'{self.prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if not new:
            print(f'OK property={self.prop} ' + ' '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, (int, bool))))
            return 0
        rdir = os.path.join(evdir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{self.prop}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': self.prop, 'seed': self.seed, 'tier': TIER,
                       'rerun': f'VERIF_SEED={self.seed} VERIF_TIER={TIER} python3 harness/check.py {self.prop}',
                       'violations': [{'signature': s, 'what': d, 'data': x} for s, d, x in new[:20]]},
                      f, indent=1, ensure_ascii=False)
        shown = set()
        for sig, desc, __ in new:
            if sig not in shown and len(shown) < 10:
                shown.add(sig)
                print(f'  {sig}: {desc[:300]}')
        print(f'VIOLATION property={self.prop} replay={path}')
        return 1
