"""C05: a conversion does the right job and reports its true outcome."""
import random

import h_convert
import h_export
import h_import
import pw
import yw7_common as yc

TEXTS = [r'import.*\.(project|text|outcome)']


def judge(chk, traces):
    for t in traces[:3]:
        if 'ev' in t:
            chk.sample({k: t['ev'][0][k] for k in ('path', 'suffix', 'yes', 'before', 'new', 'how')})
    good = [t for t in traces if 'ev' in t]
    chk.count(conversions=sum(len(t['ev']) for t in good), successful=sum(e['how'][-1:] == ['success'] for t in good for e in t['ev']))
    yc.run_traces(chk, traces, [''], module='JudgeConvert')
    if not any(t['docs'] or t['imports'] for t in good):
        return
    # the documents and projects made are the right ones
    h_export.judge(chk, [{'seed': t['seed'], 'ev': t['docs']} for t in good if t['docs']], [r'export.*\.(doc|sheet|package)'])
    h_import.judge(chk, [{'seed': t['seed'], 'ev': t['imports']} for t in good if t['imports']], TEXTS)


def run():
    chk = pw.Check('C05', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Convert', 'MC_Convert.cfg', lines=False)
    random.Random(chk.seed).shuffle(cases)
    chk.count(model_cases_replayed=len(cases))
    judge(chk, pw.parallel(h_convert.run_situations, [{'seed': chk.seed * 1000 + lo, 'cases': cases[lo:lo + 20]} for lo in range(0, len(cases), 20)]))
    judge(chk, pw.parallel(h_convert.run_session, [{'seed': chk.seed * 1000003 + i} for i in range(pw.scale(150, 3000))]))
    doable = [c for c in cases if c['job'] != 'none' and c['ok']]
    faulted = pw.parallel(h_convert.run_faulted, [{'seed': chk.seed * 1009 + i, 'case': c, 'limit': pw.scale(12, 200)} for i, c in enumerate(doable[:pw.scale(40, 400)])])
    chk.count(faults=sum(e['fault'] != 'none' for t in faulted if 'ev' in t for e in t['ev']))
    judge(chk, faulted)
    return chk.finish()
