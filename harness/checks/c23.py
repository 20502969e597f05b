"""C23: the data files of characters, locations and items."""
import random

import h_data
import h_export
import pw
import yw7_common as yc


def judge(chk, results):
    traces = []
    for r in results:
        traces += [r] if '@crash' in r else r['all']
    for t in traces[:2]:
        chk.sample({'events': [{k: e[k] for k in ('ev', 'out', 'trees', 'changed')} for e in t.get('ev', [])][:4]})
    chk.count(histories=len(traces), data_files_made=sum(e['ev'] == 'make' for t in traces for e in t.get('ev', ())))
    yc.run_traces(chk, traces, [''], module='JudgeData', chunk=1000)


def run():
    chk = pw.Check('C23', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Data', 'MC_Data.cfg')
    random.Random(chk.seed).shuffle(cases)
    cases = cases[:pw.scale(2400, 16000)]
    chk.count(model_cases_replayed=len(cases))
    judge(chk, pw.parallel(h_data.run, [{'seed': chk.seed * 1000 + lo, 'cases': cases[lo:lo + 100]} for lo in range(0, len(cases), 100)]))
    jobs = [{'seed': chk.seed * 1000003 + i, 'cases': [None] * 15} for i in range(pw.scale(40, 1500))]
    away = len(jobs) // 5
    judge(chk, pw.elsewhere(h_data.run, jobs[:away]) + pw.parallel(h_data.run, jobs[away:]))
    return chk.finish()
