"""C24: custom fields of applications."""
import random

import h_custom
import h_export
import pw
import yw7_common as yc

SECTS = ['prj', 'chs', 'scs', 'crs', 'lcs', 'its', 'pns']


def judge(chk, results):
    traces = []
    for r in results:
        traces += [r] if '@crash' in r else r['all']
    for t in traces[:2]:
        chk.sample({'declared': t.get('last'), 'events': [{k: e[k] for k in ('ev', 'out', 'kw')} for e in t.get('ev', [])][:4]})
    chk.count(histories=len(traces))
    yc.run_traces(chk, traces, [''], module='JudgeCustom', chunk=600)


def run():
    chk = pw.Check('C24', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Custom', 'MC_Custom.cfg')
    rnd = random.Random(chk.seed)
    rnd.shuffle(cases)
    jobs = [(c, s) for c in cases for s in SECTS] if pw.scale(0, 1) else [(c, SECTS[i % 7]) for i, c in enumerate(cases)]
    chk.count(model_cases_replayed=len(jobs))
    judge(chk, pw.parallel(h_custom.run, [{'seed': chk.seed * 1000 + lo, 'cases': jobs[lo:lo + 60]} for lo in range(0, len(jobs), 60)]))
    jobs = [{'seed': chk.seed * 1000003 + i, 'cases': [None] * 10} for i in range(pw.scale(30, 1000))]
    away = len(jobs) // 5
    judge(chk, pw.elsewhere(h_custom.run, jobs[:away]) + pw.parallel(h_custom.run, jobs[away:]))
    return chk.finish()
