"""Recorded sessions with the user interfaces, on a toolkit that only remembers."""
import builtins
import contextlib
import io
import os
import sys

import gen
import pw
import tkstub

APP = 'App'
BOXES = {'showerror': 'error', 'showinfo': 'success', 'showwarning': 'warning', 'askyesno': 'question', 'askokcancel': 'question', 'askquestion': 'question'}
COLOURS = {'red': 'error', 'green': 'success'}
ACTS = {'silent': ['how', 'what', 'warn', 'ask'], 'console': ['how', 'what', 'warn', 'ask'], 'boxes': ['how', 'what', 'warn', 'ask'],
        'window': ['how', 'how', 'what', 'warn', 'ask', 'button', 'press'], 'main': ['how', 'how', 'status', 'what', 'warn', 'ask', 'error', 'info', 'resize', 'quit', 'again']}


def make(ui, **kw):
    if ui == 'silent':
        from pywriter.ui.ui import Ui as C
    elif ui == 'console':
        from pywriter.ui.ui_cmd import UiCmd as C
    elif ui == 'boxes':
        from pywriter.ui.ui_mb import UiMb as C
    elif ui == 'window':
        from pywriter.ui.ui_tk import UiTk as C
    else:
        from pywriter.ui.main_tk import MainTk as C
    return C(APP, **kw)


def labels():
    return [{'kind': COLOURS.get(str(w.cget('bg')), 'plain'), 'text': str(w.cget('text'))} for w in tkstub.log.get('Label', []) if w.options.get('text')]


def button(text):
    return [w for w in tkstub.log.get('Button', []) if w.options.get('text') == text]


def act(u, a, g, opened):
    from pywriter.pywriter_globals import _
    k, arg = a['k'], a['arg']
    if k == 'how':
        return u.set_info_how(arg)
    if k == 'what':
        return u.set_info_what(arg)
    if k == 'warn':
        return u.show_warning(arg)
    if k == 'error':
        return u.show_error(arg)
    if k == 'info':
        return u.show_info(arg)
    if k == 'status':
        return u.show_status(arg)
    if k == 'ask':
        return {True: 'T', False: 'F'}.get(u.ask_yes_no(arg), 'other')
    if k == 'resize':
        return u.root.geometry(arg)
    if k == 'quit':
        exits = [e for e in u.fileMenu.entries if e.get('label') == _('Exit')]
        return exits[0]['command']() if exits and g.chance(0.5) else u.on_quit()
    if k == 'button':
        return u.show_open_button(lambda: opened.append(1))
    if k == 'press':
        there = button(_('Open'))
        opened.clear()
        for b in there[:1]:
            b.options['command']()
        return 'opened' if opened == [1] else 'none' if not there else 'other'


def session(g, ui, acts):
    tkstub.reset()
    ev, opened = [], []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        u = make(ui)
    for a in acts:
        tkstub.boxes.clear()
        tkstub.calls.clear()
        yes = a['answer'] == 'T'
        tkstub.answer.update(askyesno=yes, askokcancel=yes, askquestion='yes' if yes else 'no')
        prompts = []

        def ask(prompt=''):
            prompts.append(str(prompt))
            return g.pick(['y', 'Y']) if yes else g.pick(['n', 'N', '', 'no'])

        real, builtins.input = builtins.input, ask
        so, se = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                if a['k'] == 'again':
                    kept = u.kwargs
                    tkstub.log.clear()
                    out, ret = pw.outcome(lambda: make(ui, **kept))
                    u, ret = ret, ''
                else:
                    out, ret = pw.outcome(act, u, a, g, opened)
        finally:
            builtins.input = real
        ev.append({'ev': 'report', 'k': a['k'], 'arg': a['arg'], 'answer': a['answer'], 'out': out, 'ret': ret if isinstance(ret, str) and out == 'ok' else '',
                   'shown': [{'kind': BOXES.get(n, n), 'text': str(args[1]) if len(args) > 1 else str(kw.get('message', ''))} for n, args, kw in tkstub.boxes],
                   'printed': so.getvalue() + ''.join(prompts) + se.getvalue(), 'labels': labels(),
                   'left': any(n in ('quit', 'destroy') for w, n, args in tkstub.calls), 'geo': u.root.geometry() if ui == 'main' and out == 'ok' else ''})
        if out != 'ok':
            break
    return ev


WORDS = ['Cannot', 'file', '"a b.yw7"', 'é', '日本', '100%', '{0}', '!', '$x', '<b>', "it's", '\\n', ':', '&amp;', '~', '(y/n)']


def text(g, err=None):
    t = ' '.join(['x'] + [g.pick(WORDS) for __ in range(g.r.randint(1, 6))]) + g.pick(['.', '', '!'])
    if g.chance(0.2):
        t = t.replace(' ', '\n', 1)
    return ('!' if (g.chance(0.5) if err is None else err) else '') + t


def acts(g, ui):
    out, gone, has = [], False, False
    for __ in range(g.r.randint(3, 20)):
        k = 'again' if gone else g.pick([x for x in ACTS[ui] if x != 'again'])
        if k == 'button' and has:
            continue
        has = has or k == 'button'
        gone = k == 'quit'
        arg = {'how': lambda: text(g), 'what': lambda: text(g), 'warn': lambda: text(g), 'ask': lambda: text(g, False) + '?', 'error': lambda: text(g), 'info': lambda: text(g),
               'status': lambda: text(g, False), 'resize': lambda: f'{g.r.randint(1, 999)}x{g.r.randint(1, 999)}+{g.r.randint(0, 99)}+{g.r.randint(0, 99)}'}.get(k, lambda: '')()
        out.append({'k': k, 'arg': arg, 'answer': g.pick('TF') if k == 'ask' else ''})
    return out


def run(job):
    tkstub.install()
    g = gen.Gen(job['seed'])
    out = []
    for c in job['cases']:
        if c is None:
            ui = g.pick(list(ACTS))
            c = {'ui': ui, 'acts': acts(g, ui)}
        out.append({'seed': job['seed'], 'ui': c['ui'], 'env': {'ui': c['ui']}, 'ev': session(g, c['ui'], c['acts'])})
    return {'seed': job['seed'], 'all': out}
