"""Recorded sessions with the main window, on a toolkit that only remembers."""
import contextlib
import hashlib
import io
import os
import shutil
import sys

import gen
import h_convert
import h_fault
import proj
import pw
import tkstub

NULL = proj.NULL
APP = 'App'
ODD = [b'<YWRITER7/>', b'<html><body/></html>', b'<YWRITER7><PROJECT/></YWRITER7>', b'<YWRITER7><PROJECT><Title>T</Title></PROJECT></YWRITER7>',
       b'<YWRITER7><CHAPTERS/><SCENES/></YWRITER7>', b'<YWRITER7><PROJECT/><LOCATIONS/><ITEMS/><CHARACTERS/><SCENES><SCENE/></SCENES><CHAPTERS/></YWRITER7>',
       b'<YWRITER7><PROJECT/><LOCATIONS><LOCATION/></LOCATIONS><ITEMS/><CHARACTERS/><SCENES/><CHAPTERS><CHAPTER/></CHAPTERS></YWRITER7>',
       '<?xml version="1.0" encoding="utf-16"?><YWRITER7/>'.encode('utf-16')]

_hook = []


def fault(plan, root):
    """Let the next file operation fail (in this process)."""
    if not _hook:
        _hook.append(None)
        sys.addaudithook(lambda event, args: _hook[0] is not None and _hook[0].hook(event, args))
    p = h_fault._Plan(plan, root)
    p.active = True
    _hook[0] = p
    return p


def good(title, author):
    d = h_convert.simple(500)
    d['prj']['title'], d['prj']['author'] = title, author
    key = ('window', title, author)
    if key not in h_convert._cache:
        old = os.getcwd()
        os.mkdir('make')
        os.chdir('make')
        h_convert.write_new('x.yw7', d)
        with open('x.yw7', 'rb') as f:
            h_convert._cache[key] = f.read()
        os.chdir(old)
        shutil.rmtree(os.path.join(old, 'make'))
    return h_convert._cache[key]


def put(g, f):
    data = good(f['title'], f['author']) if f['c'] in ('good', 'locked') else g.pick(ODD) if f['c'] == 'odd' else h_convert.material(g, 'x.yw7', 'bad')
    with open(f['n'], 'wb') as out:
        out.write(data)
    if f['c'] == 'locked':
        with open(f['n'] + '.lock', 'wb') as out:
            out.write(b'x')


def digests(wd):
    out = {}
    for n in os.listdir(wd):
        with open(os.path.join(wd, n), 'rb') as f:
            out[n] = hashlib.sha256(f.read()).hexdigest()
    return out


def name_of(path, wd):
    return '' if not path else os.path.relpath(os.path.join(wd, path), wd)


def seen(win, wd):
    bg = str(win.statusBar.cget('bg'))
    menu = [e.get('state', 'normal') for e in win.fileMenu.entries if e.get('label') == 'Close']
    return {'open': name_of(win.prjFile.filePath, wd) if win.prjFile is not None else '', 'title': win.root.title(), 'path': name_of(str(win.pathBar.cget('text')), wd),
            'text': str(win.statusBar.cget('text')), 'colour': bg if bg in ('red', 'green') else 'normal', 'menu': menu[:1] == ['normal'],
            'last': name_of(win.kwargs.get('yw_last_open', ''), wd)}


FILES = [{'n': 'a.yw7', 'c': 'good', 'title': 'A', 'author': 'Ann'}, {'n': 'b.yw7', 'c': 'good', 'title': NULL, 'author': NULL},
         {'n': 'x.yw7', 'c': 'bad', 'title': 'X', 'author': 'X'}, {'n': 'l.yw7', 'c': 'locked', 'title': 'L', 'author': 'L'}]


def session(g, wd, acts, files):
    from pywriter.ui.main_tk import MainTk
    tkstub.reset()
    files = [dict(f) for f in files]
    for f in files:
        put(g, f)
    last = ''
    kwargs = {}
    if g.chance(0.3):
        last = kwargs['yw_last_open'] = os.path.join(wd, 'a.yw7')
    win = MainTk(APP, **kwargs)
    told = {f['n']: [f['title'], f['author']] for f in files}
    ev = []
    for a in acts:
        before = digests(wd)
        tkstub.boxes.clear()
        full = lambda n: os.path.join(wd, n) if n and a.get('full', True) else n
        tkstub.answer['askopenfilename'] = full(a['answer'])
        ret, saved, plan = NULL, 'F', None
        if a['k'] in ('open', 'fault'):
            if a['k'] == 'fault':
                plan = fault({'kind': 'fail', 'n': 1, 'exc': g.pick(['os', 'perm'])}, wd)
            try:
                if a['k'] == 'open' and a['arg'] == '' and g.chance(0.3):
                    # by menu
                    item = [e for e in win.fileMenu.entries if e.get('label') == 'Open...'][0]
                    was = win.prjFile
                    out, __ = pw.outcome(item['command'])
                    res = a['answer'] != '' and win.prjFile is not None and win.prjFile is not was
                else:
                    out, res = pw.outcome(win.open_project, full(a['arg']))
            finally:
                if plan:
                    plan.active = False
            ret = 'T' if res is True else 'F'
        elif a['k'] == 'close':
            item = [e for e in win.fileMenu.entries if e.get('label') == 'Close'][0]
            out, __ = pw.outcome(item['command'] if item.get('state', 'normal') == 'normal' and g.chance(0.5) else win.close_project)
        elif a['k'] == 'restore':
            out, __ = pw.outcome(win.restore_status)
        elif a['k'] == 'tell':
            out, __ = pw.outcome(win.set_info_how, a['arg'])
        elif a['k'] == 'status':
            out, __ = pw.outcome(win.show_status, a['arg'])
        elif a['k'] == 'save':
            out = 'ok'
            if win.prjFile is not None:
                saved = 'T' if pw.outcome(win.prjFile.write)[0] == 'ok' else 'F'
                f = next((f for f in files if f['n'] == name_of(win.prjFile.filePath, wd)), None)
                if f and saved == 'T':
                    f['c'] = 'good'
        after = digests(wd)
        listed = [dict(f) for f in files]
        if a['k'] == 'turn':
            out = 'ok'
            f = next(f for f in files if f['n'] == a['arg'])
            if os.path.exists(f['n'] + '.lock'):
                os.remove(f['n'] + '.lock')
            f['c'] = a['answer']
            put(g, f)
        n = win.novel
        opened = name_of(win.prjFile.filePath, wd) if win.prjFile is not None else ''
        ev.append({'ev': 'window', 'k': a['k'], 'arg': a['arg'], 'answer': a['answer'], 'files': listed, 'out': out, 'msg': '', 'ret': ret, 'saved': saved,
                   'hit': bool(plan and plan.hit), 'asked': sum(b[0] == 'askopenfilename' for b in tkstub.boxes), 'win': seen(win, wd),
                   'same': 'T' if win.prjFile is not None and win.prjFile.novel is n else 'F',
                   'title': NULL if n is None else proj.v(n.title), 'author': NULL if n is None else proj.v(n.authorName),
                   'told': told.get(opened, [NULL, NULL]) if next((f['c'] for f in listed if f['n'] == opened), '') != 'odd' else [proj.v(n.title), proj.v(n.authorName)],
                   'changed': sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x)) if a['k'] != 'turn' else []})
        if out != 'ok':
            break
    return ev, name_of(last, wd)


def run(job):
    tkstub.install()
    g = gen.Gen(job['seed'])
    old = os.getcwd()
    out = []
    for acts in job['cases']:
        wd = os.path.join(old, 'w')
        os.makedirs(wd)
        os.chdir(wd)
        files = FILES
        if acts is None:
            files = [dict(f) for f in FILES]
            for i in range(2):
                files.append({'n': f'n{i}.yw7', 'c': g.pick(['odd', 'bad', 'good']), 'title': g.pick(['T', NULL, 'Ä & b']), 'author': g.pick(['Me', NULL])})
            names = [f['n'] for f in files] + ['', 'none.yw7']
            acts = []
            for __ in range(g.r.randint(4, 25)):
                k = g.pick(['open', 'open', 'open', 'close', 'restore', 'save', 'tell', 'status', 'turn', 'fault'])
                a = {'k': k, 'arg': '', 'answer': '', 'full': g.chance(0.7)}
                if k in ('open', 'fault'):
                    a['arg'], a['answer'] = g.pick(names), g.pick(names[:-1])
                elif k == 'tell':
                    a['arg'] = g.pick(['!no', '! a ! b ', 'fine', 'x!', '!'])
                elif k == 'status':
                    a['arg'] = g.pick(['', '3 parts', 'x'])
                elif k == 'turn':
                    a['arg'], a['answer'] = g.pick(names[:-2]), g.pick(['good', 'bad', 'locked', 'odd'])
                acts.append(a)
        with contextlib.redirect_stderr(io.StringIO()):
            ev, last = session(g, wd, acts, files)
        out.append({'seed': job['seed'], 'ev': ev, 'last': last})
        os.chdir(old)
        shutil.rmtree(wd)
    return {'seed': job['seed'], 'all': out}
