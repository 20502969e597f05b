"""C25: translating the program's messages."""
import random

import h_export
import h_translate
import pw
import yw7_common as yc


def judge(chk, results):
    traces = []
    for r in results:
        traces += [r] if '@crash' in r else r['all']
    for t in traces[:2]:
        chk.sample({'events': [{k: e[k] for k in e if k != 'st'} for e in t.get('ev', [])][:6]})
    chk.count(histories=len(traces), tool_runs=sum(e['ev'] not in ('work', 'start') for t in traces for e in t.get('ev', ())))
    yc.run_traces(chk, traces, [''], module='JudgeTranslate', chunk=500)


def run():
    chk = pw.Check('C25', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Translate', 'MC_Translate.cfg')
    random.Random(chk.seed).shuffle(cases)
    cases = cases[:pw.scale(2000, 10000)]
    chk.count(model_cases_replayed=len(cases))
    judge(chk, pw.parallel(h_translate.run, [{'seed': chk.seed * 1000 + lo, 'cases': cases[lo:lo + 50]} for lo in range(0, len(cases), 50)]))
    jobs = [{'seed': chk.seed * 1000003 + i, 'cases': [None] * 20} for i in range(pw.scale(40, 1500))]
    away = len(jobs) // 5
    judge(chk, pw.elsewhere(h_translate.run, jobs[:away]) + pw.parallel(h_translate.run, jobs[away:]))
    return chk.finish()
