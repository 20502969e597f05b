"""The checks that are decided by the project-file specification share this driver."""
import h_yw7
import pw


def clause_filter(patterns):
    import re
    rx = [re.compile(p) for p in patterns]
    return lambda c: any(r.match(c) for r in rx)


def run_traces(chk, traces, patterns, module='JudgeYw7', chunk=400):
    """Judge the traces, keep the clauses that belong to this property."""
    crashed = [t for t in traces if '@crash' in t]
    for t in crashed:
        chk.violate('crash', t['@crash'], t)
    traces = [t for t in traces if '@crash' not in t]
    verdicts, res = pw.judge(module, [{k: t[k] for k in ('ev', 'env', 'last') if k in t} for t in traces], chunk=chunk)
    chk.add_tlc(res, len(traces))
    mine = clause_filter(patterns)
    for ti, ei, clause in verdicts:
        if mine(clause):
            t = traces[ti]
            chk.violate(clause, f'history seed {t.get("seed")}, event {ei + 1} ({t["ev"][ei].get("ev")}): '
                        f'{clause} {t["ev"][ei].get("out", "")} {t["ev"][ei].get("msg", "")}'.rstrip(),
                        {'seed': t.get('seed'), 'event': ei, 'clause': clause, 'trace': t['ev'][max(0, ei - 1):ei + 1]})
    return verdicts


def histories(chk, n, patterns, steps=3, size=None, new=0.35, offset=0):
    jobs = [{'seed': chk.seed * 1000003 + offset + i, 'steps': steps, 'size': size, 'new': new} for i in range(n)]
    traces = pw.elsewhere(h_yw7.run_history, jobs[:n // 8]) + pw.parallel(h_yw7.run_history, jobs[n // 8:])
    for t in traces[:2]:
        if 'ev' in t:
            chk.sample({'seed': t['seed'], 'events': [e['ev'] for e in t['ev']],
                        'last': {k: v for k, v in t['ev'][-1].items() if k != 'tree'}})
    verdicts = run_traces(chk, traces, patterns)
    return traces, verdicts
