"""Recorded attempts to open documents, with stand-ins for the programs of the desktop."""
import os
import shutil
import time

import gen
import h_export
import pw

SCRIPT = '''#!/bin/sh
{{ printf '%s\\n' {way} "$#"; for a in "$@"; do printf '%s\\0' "$a"; done; printf '\\1'; }} >> {log}
exit {rc}
'''
PIECES = ['"', "'", '$(: >pwned)', '`: >pwned`', '"; : >pwned; "', '; : >pwned', '&& : >pwned', '| : >pwned', '>pwned', '" >pwned "', '$HOME', '${x}', '%s',
          '%d', '\\', '\\"', ' ', '  ', '~', '*', '?', '[a]', '{a,b}', '#', '!', '!!', '&', '|', '(', ')', '-', '--', 'é', '日本', '\t', "$'x'", '%20', ':', '=', ',']


def started(log, expect):
    """What the stand-ins have recorded (programs may be started without being waited for)."""
    deadline = time.time() + (3 if expect else 0.2)
    while time.time() < deadline and not os.path.exists(log):
        time.sleep(0.01)
    if not os.path.exists(log):
        return []
    data = b''
    for __ in range(100):
        with open(log, 'rb') as f:
            data = f.read()
        if data.endswith(b'\1'):
            break
        time.sleep(0.02)
    res = []
    for rec in data.split(b'\1')[:-1]:
        way, n, rest = rec.split(b'\n', 2)
        res.append({'way': way.decode(), 'args': [a.decode('utf-8', 'replace') for a in rest.split(b'\0')[:-1]]})
    return res


def open_one(path, has):
    from pywriter.file.doc_open import open_document
    wd = os.path.dirname(path)
    tools = os.path.join(os.getcwd(), 'bin')
    log = os.path.join(os.getcwd(), 'log')
    shutil.rmtree(tools, ignore_errors=True)
    os.makedirs(tools)
    if os.path.exists(log):
        os.remove(log)
    for way in ('xdg-open', 'open'):
        if has[way] != 'missing':
            p = os.path.join(tools, way)
            with open(p, 'w') as f:
                f.write(SCRIPT.format(way=way, log=log, rc=0 if has[way] == 'works' else 3))
            os.chmod(p, 0o755)
    direct = []

    def startfile(p, *args):
        if has['startfile'] == 'refuses':
            raise OSError('no application')
        direct.append({'way': 'startfile', 'args': [p, *args]})

    old = os.environ['PATH'], os.getcwd()
    before = set(os.listdir(wd))
    os.environ['PATH'] = tools
    os.chdir(wd)
    if has['startfile'] != 'missing':
        os.startfile = startfile
    fds = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        out, msg = pw.outcome(open_document, path)
    finally:
        os.dup2(fds[0], 1)
        os.dup2(fds[1], 2)
        for fd in (*fds, null):
            os.close(fd)
        if hasattr(os, 'startfile'):
            del os.startfile
        os.environ['PATH'] = old[0]
        os.chdir(old[1])
    expect = not direct and any(has[w] != 'missing' for w in ('xdg-open', 'open'))
    ev = direct + started(log, expect)
    return {'ev': 'open', 'path': path, 'has': has, 'out': out, 'msg': str(msg or ''), 'started': ev, 'strays': sorted(set(os.listdir(wd)) - before)}


def run_open(job):
    """job: {'seed', 'names', 'systems'} -> trace"""
    g = gen.Gen(job['seed'])
    wd = os.path.join(os.getcwd(), 'x')
    shutil.rmtree(wd, ignore_errors=True)
    ev = []
    for name in job['names']:
        d = os.path.join(wd, g.pick(['d', 'd', 'a b', "it's", '$(: >pwned)', '`x`', 'q"q']))
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            f.write('x')
        ev.append(open_one(path, g.pick(job['systems'])))
    shutil.rmtree(wd, ignore_errors=True)
    return {'seed': job['seed'], 'ev': ev}


def name(g):
    return 'x' + ''.join(g.pick(PIECES).replace('/', '') for __ in range(g.r.randint(0, 4))) + g.pick(['', '.odt', '.yw7', '.html'])


def run(chk, n, cfg, mine, limit=None):
    import yw7_common as yc
    cases = h_export.model_cases(chk, 'MC_Launch', cfg)
    systems = [c['has'] for c in cases if 'has' in c]
    names = ['x' + c['name'] for c in cases if 'name' in c]
    g = gen.Gen(chk.seed)
    g.r.shuffle(names)
    names = names[:limit] + [name(g) for __ in range(n)]
    jobs = [{'seed': chk.seed * 1000003 + i, 'names': names[i:i + 5], 'systems': systems} for i in range(0, len(names), 5)]
    traces = pw.parallel(run_open, jobs)
    for t in traces[:2] + traces[-2:]:
        chk.sample({'seed': t['seed'], 'opened': [{k: e[k] for k in ('path', 'has', 'started')} for e in t['ev'][:3]]})
    chk.count(documents=len(names))
    yc.run_traces(chk, traces, mine, module='JudgeLaunch')
