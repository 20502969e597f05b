"""C28: the user interfaces."""
import random

import h_export
import h_report
import pw
import yw7_common as yc


def judge(chk, results):
    traces = []
    for r in results:
        traces += [r] if '@crash' in r else r['all']
    for t in traces[:2]:
        chk.sample({'ui': t.get('ui'), 'session': [{k: e[k] for k in ('k', 'arg', 'answer', 'ret', 'shown', 'printed', 'labels')} for e in t.get('ev', [])][:6]})
    chk.count(sessions=len(traces))
    yc.run_traces(chk, traces, [''], module='JudgeReport', chunk=1500)


def run():
    chk = pw.Check('C28', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Report', 'MC_Report.cfg')
    random.Random(chk.seed).shuffle(cases)
    cases = cases[:pw.scale(5000, 100000)]
    chk.count(model_cases_replayed=len(cases))
    judge(chk, pw.parallel(h_report.run, [{'seed': chk.seed * 1000 + lo, 'cases': cases[lo:lo + 200]} for lo in range(0, len(cases), 200)]))
    judge(chk, pw.parallel(h_report.run, [{'seed': chk.seed * 1000003 + i, 'cases': [None] * 30} for i in range(pw.scale(60, 1000))]))
    return chk.finish()
