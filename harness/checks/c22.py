"""C22: the main window."""
import random

import h_export
import h_window
import pw
import yw7_common as yc


def judge(chk, results):
    traces = []
    for r in results:
        traces += [r] if '@crash' in r else r['all']
    for t in traces[:2]:
        chk.sample({'session': [{k: e[k] for k in ('k', 'arg', 'answer', 'ret', 'win')} for e in t.get('ev', [])][:6]})
    chk.count(sessions=len(traces))
    yc.run_traces(chk, traces, [''], module='JudgeWindow', chunk=1500)


def run():
    chk = pw.Check('C22', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Window', 'MC_Window.cfg')
    random.Random(chk.seed).shuffle(cases)
    cases = cases[:pw.scale(3000, 100000)]
    chk.count(model_cases_replayed=len(cases))
    judge(chk, pw.parallel(h_window.run, [{'seed': chk.seed * 1000 + lo, 'cases': cases[lo:lo + 100]} for lo in range(0, len(cases), 100)]))
    judge(chk, pw.parallel(h_window.run, [{'seed': chk.seed * 1000003 + i, 'cases': [None] * 20} for i in range(pw.scale(30, 1000))]))
    return chk.finish()
