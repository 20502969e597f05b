"""C13: the cross reference."""
import random

import h_export
import pw

MINE = [r'export_xref\.']


def run():
    chk = pw.Check('C13', 'model_checking')
    h_export.run(chk, pw.scale(1500, 20000), 'crowd', ['_xref'], mine=MINE)
    h_export.run(chk, pw.scale(300, 3000), 'world', ['_xref'], offset=100000, mine=MINE)
    h_export.run(chk, pw.scale(100, 1000), 'crowd', ['_xref', '_xref'], offset=200000, same=True, mine=MINE, reuse=True)
    cases = h_export.model_cases(chk, 'MC_Xref', None)
    random.Random(chk.seed).shuffle(cases)
    cases = cases[:pw.scale(1200, None)]
    chk.count(model_cases_replayed=len(cases))
    jobs = [{'seed': chk.seed + i, 'novel': c, 'make': 'crowd', 'kinds': ['_xref']} for i, c in enumerate(cases)]
    h_export.judge(chk, pw.parallel(h_export.run_export, jobs), MINE)
    return chk.finish()
