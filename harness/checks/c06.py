"""C06: each document holds exactly the chapters and scenes meant for it."""
import random

import gen
import h_export
import pw

MINE = [r'export.*\.(doc|sheet)\.', r'export.*\.(outcome|memory|package\.malformed)']


def run():
    chk = pw.Check('C06', 'model_checking')
    cases = h_export.model_cases(chk, 'MC_Doc', pw.scale('MC_Doc.cfg', 'MC_Doc3.cfg'))
    chk.count(model_cases_replayed=len(cases))
    random.Random(chk.seed).shuffle(cases)
    jobs = []
    for lo in range(0, len(cases), 20):
        g = gen.Gen(chk.seed + lo)
        jobs.append({'seed': lo, 'make': '', 'kinds': h_export.KINDS, 'novel': h_export.packed(g, cases[lo:lo + 20])})
    h_export.judge(chk, pw.parallel(h_export.run_export, jobs), MINE)
    h_export.run(chk, pw.scale(250, 3000), 'skeleton', h_export.KINDS, mine=MINE)
    h_export.run(chk, pw.scale(150, 2000), 'skeleton', None, offset=50000, same=True, mine=MINE, reuse=True)
    h_export.run(chk, pw.scale(300, 6000), 'world', offset=100000, mine=MINE)
    return chk.finish()
