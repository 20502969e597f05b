#!/usr/bin/env python3
"""Try planted bugs in scratch copies of /repo (development aid; no check uses it).

  bug.py [--all-checks] [--no-tests] ID...     apply seeded/ID/patch.diff to a copy, run tests, demo, and checks
  bug.py --make ID FILE.py                     FILE.py defines EDITS = [(path, old, new), ...], META, DEMO (python source)
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENV = {'HOME': '/root', 'LC_ALL': 'en_US.UTF-8', 'LANG': 'en_US.UTF-8', 'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONHASHSEED': '0', 'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1'}


def copy(name):
    d = tempfile.mkdtemp(prefix=f'bug-{name}-')
    subprocess.run(['cp', '-a', REPO, d + '/repo'], check=True)
    return d, d + '/repo'


def stable():
    with open('/opt/vp/BASELINE.json') as f:
        b = json.load(f)
    for k in ('stable', 'passed', 'tests', 'stable_tests'):
        if k in b:
            return set(b[k])
    raise SystemExit(list(b))


def run_tests(repo):
    rep = os.path.join(os.path.dirname(repo), 'junit.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=300',
                    '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + rep, '.'],
                   cwd=repo + '/src', env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    bad = []
    for tc in ET.parse(rep).getroot().iter('testcase'):
        if tc.find('failure') is not None or tc.find('error') is not None:
            bad.append(f'{tc.get("classname")}::{tc.get("name")}')
    return [b for b in bad if 'test_yw7_to_exp' not in b or 'scenelist' not in b]


def demo(bug, repo):
    p = subprocess.run(['bash', os.path.join(VERIF, 'seeded', bug, 'demo.sh')], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode('utf-8', 'replace')[-1500:]


def check(prop, repo):
    e = dict(os.environ, PYWV_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', PYWV_EVIDENCE=os.path.dirname(repo))
    p = subprocess.run(['python3', 'harness/check.py', prop], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def try_bug(bug, tests=True, allchecks=False):
    lines = []
    with open(os.path.join(VERIF, 'seeded', bug, 'meta.json')) as f:
        meta = json.load(f)
    d, repo = copy(bug)
    try:
        rc0, out0 = demo(bug, repo)
        if rc0 != 0:
            lines.append(f'  DEMO FAILS UNCHANGED: {out0}')
        p = subprocess.run(['git', 'apply', os.path.join(VERIF, 'seeded', bug, 'patch.diff')], cwd=repo, stderr=subprocess.PIPE)
        if p.returncode:
            return bug, [f'  PATCH DOES NOT APPLY {p.stderr}']
        if tests:
            bad = run_tests(repo)
            if bad:
                lines.append(f'  TESTS FAIL: {bad}')
        rc, out = demo(bug, repo)
        if rc == 0:
            lines.append(f'  DEMO PASSES WITH BUG: {out}')
        checks = [meta['property']]
        if allchecks:
            checks = [n[:-3].upper() for n in sorted(os.listdir(os.path.join(VERIF, 'harness', 'checks'))) if n.startswith('c')]
        for c in checks:
            rc, out = check(c, repo)
            tail = [l for l in out.splitlines() if l.startswith('  ') or 'VIOLATION' in l or 'Error' in l][-6:]
            lines.append(f'  {c}: {"caught" if rc == 1 else "MISSED" if rc == 0 else "FAILED"} ' + ' / '.join(t.strip()[:160] for t in tail))
    finally:
        shutil.rmtree(d)
    return bug, lines


def make(bug, path):
    ns = {}
    with open(path) as f:
        exec(f.read(), ns)
    d, repo = copy(bug)
    try:
        for fn, old, new in ns['EDITS']:
            fp = os.path.join(repo, fn)
            with open(fp, newline='', encoding='utf-8') as f:
                s = f.read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            assert s.count(old) == 1, (fn, s.count(old), old)
            s = s.replace(old, new)
            if crlf:
                s = s.replace('\n', '\r\n')
            with open(fp, 'w', newline='', encoding='utf-8') as f:
                f.write(s)
        diff = subprocess.run(['git', 'diff', '--binary'], cwd=repo, stdout=subprocess.PIPE, check=True).stdout
    finally:
        shutil.rmtree(d)
    t = os.path.join(VERIF, 'seeded', bug)
    os.makedirs(t, exist_ok=True)
    with open(t + '/patch.diff', 'wb') as f:
        f.write(diff)
    with open(t + '/meta.json', 'w') as f:
        json.dump(ns['META'], f, indent=1)
        f.write('\n')
    with open(t + '/demo.py', 'w') as f:
        f.write(ns.get('PRE', PRE) + ns['DEMO'])
    with open(t + '/demo.sh', 'w') as f:
        f.write(SH)


SH = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: the guarantee holds; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=en_US.UTF-8 LANG=en_US.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
unset LANGUAGE
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
exec $PY "$here/demo.py"
'''
PRE = '''import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import locale
locale.setlocale(locale.LC_ALL, 'en_US.UTF-8')
from pywriter.yw.yw7_file import Yw7File
from pywriter.model.novel import Novel
from pywriter.model.chapter import Chapter
from pywriter.model.scene import Scene
from pywriter.model.character import Character
from pywriter.model.world_element import WorldElement
from pywriter.model.basic_element import BasicElement
work = tempfile.mkdtemp()
os.chdir(work)


def done(ok, what=''):
    os.chdir('/')
    shutil.rmtree(work)
    print('ok' if ok else 'BROKEN ' + what)
    sys.exit(0 if ok else 1)


def load(path):
    f = Yw7File(path)
    f.novel = Novel()
    f.read()
    return f


def novel(chapters=(), **kw):
    """chapters: a list of lists of scene contents"""
    n = Novel()
    n.title, n.authorName, n.desc = 'Title', 'Author', 'Summary'
    n.languageCode, n.countryCode = 'en', 'US'
    k = 0
    for i, scs in enumerate(chapters, 1):
        c = Chapter()
        c.title, c.chLevel, c.chType = f'Chapter {i}', 0, 0
        n.chapters[str(i)] = c
        n.srtChapters.append(str(i))
        for t in scs:
            k += 1
            s = Scene()
            s.title, s.sceneContent, s.scType, s.status = f'Scene {k}', t, 0, 1
            n.scenes[str(k)] = s
            c.srtScenes.append(str(k))
    return n


def save(n, path='p.yw7'):
    f = Yw7File(path)
    f.novel = n
    f.write()
    return f


'''


def main(args):
    if args[:1] == ['--make']:
        make(args[1], args[2])
        return
    allc = '--all-checks' in args
    tests = '--no-tests' not in args
    ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        for bug, lines in pool.map(lambda b: try_bug(b, tests, allc), ids):
            print(bug)
            print('\n'.join(lines), flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
