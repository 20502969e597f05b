"""C17: the languages of a project and its documents."""
import random

import h_export
import h_lang
import pw
import yw7_common as yc

MINE = [r'(load|save|memory)\.(prj\.(lang|country|languages)|outcome)', r'frame\.projectvars', r'integrity\.variable-id', r'stable', r'crash',
        r'export.*\.(outcome|meta\.language|memory\.prj|doc)', r'export.*malformed']
SYSTEMS = ['en_US.UTF-8', 'de_AT.UTF-8', 'fr_CA.UTF-8', 'pt_BR', 'C', 'POSIX', 'C.UTF-8', '', 'fil_PH.UTF-8', 'es_ES']


def judge(chk, results):
    traces, docs = [], []
    for r in results:
        if '@crash' in r or 'ev' in r:
            traces.append(r)
        for c in r.get('cases', ()):
            traces.append({'seed': r['seed'], 'env': r['env'], 'ev': c['ev']})
            if c['docs']:
                docs.append({'seed': r['seed'], 'env': r['env'], 'ev': c['docs']})
    chk.count(histories=len(traces))
    for t in traces[:2]:
        if 'ev' in t:
            chk.sample({'env': t.get('env'), 'events': [e['ev'] for e in t['ev']], 'prj': t['ev'][-1].get('novel', {}).get('prj')})
    yc.run_traces(chk, traces, MINE)
    if docs:
        h_export.judge(chk, docs, MINE)


def run():
    chk = pw.Check('C17', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Lang', pw.scale('MC_Lang.cfg', 'MC_Lang3.cfg'))
    rnd = random.Random(chk.seed)
    rnd.shuffle(cases)
    cases = cases[:pw.scale(1200, 40000)]
    by = {}
    for c in cases:
        by.setdefault(c['sys'], []).append(c)
    jobs = []
    for name in sorted(by):
        for lo in range(0, len(by[name]), 60):
            jobs.append({'seed': chk.seed * 100000 + len(jobs), 'env': name, 'by': rnd.choice(['LC_ALL', 'LANG']), 'cases': by[name][lo:lo + 60]})
    chk.count(model_cases_replayed=len(cases))
    judge(chk, pw.parallel(h_lang.run, jobs))
    jobs = [{'seed': chk.seed * 1000003 + i, 'env': SYSTEMS[i % len(SYSTEMS)], 'by': rnd.choice(['LC_ALL', 'LANG']), 'cases': [None] * 20} for i in range(pw.scale(20, 400))]
    judge(chk, pw.parallel(h_lang.run, jobs))
    return chk.finish()
