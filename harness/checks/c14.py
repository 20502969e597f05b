"""C14: text formatting survives the conversion in both directions."""
import random

import gen
import h_export
import h_import
import pw

EXPORT = [r'export(_manuscript|_proof|_notes|_todo)?\.(doc|outcome|package\.malformed|memory)']
IMPORT = [r'import', r'same']


def texts(chk):
    """The texts of the model, without those whose meaning is left open."""
    cases = h_export.model_cases(chk, 'MC_Markup', pw.scale('MC_Markup.cfg', 'MC_Markup5.cfg'), lines=False, min_states=10000)
    cases = sorted({h_export.sane(x) for x in cases} - {''})
    random.Random(chk.seed).shuffle(cases)
    return cases


def projects(chk, cases, size, kinds, offset, langs=('de-DE',)):
    for n, lo in enumerate(range(0, len(cases), size)):
        g = gen.Gen(chk.seed * 1000003 + offset + n)
        yield {'seed': offset + n, 'make': '', 'kinds': [kinds[n % len(kinds)]], 'novel': h_export.texts_project(g, cases[lo:lo + size], langs)}


def run():
    chk = pw.Check('C14', 'model_checking')
    cases = texts(chk)
    chk.count(model_cases=len(cases))
    quick = cases[:pw.scale(12000, len(cases))]
    chk.count(model_cases_replayed=len(quick))
    h_export.judge(chk, pw.parallel(h_export.run_export, list(projects(chk, quick, 100, ['', '_manuscript', '_proof'], 1000))), EXPORT, chunk=15)
    # written back unedited: the meaning is the same
    some = cases[-pw.scale(6000, 60000):]
    chk.count(model_cases_round_trip=len(some))
    h_import.judge(chk, pw.parallel(h_import.run_same, list(projects(chk, some, 60, ['_manuscript', '_proof'], 5000))), IMPORT, chunk=15)
    # longer texts, several languages
    h_export.run(chk, pw.scale(300, 6000), 'world', ['', '_manuscript', '_proof'], offset=10000, mine=EXPORT)
    h_export.run(chk, pw.scale(60, 1000), 'world', ['_notes', '_todo'], offset=200000, mine=EXPORT)
    h_import.run(chk, pw.scale(150, 3000), h_import.run_same, 'world', ['_manuscript', '_proof'], offset=300000, mine=IMPORT)
    # formatting made in a document
    h_import.run(chk, pw.scale(250, 5000), h_import.run_edited, 'world', ['_manuscript', '_proof'], offset=400000, mine=IMPORT)
    h_import.run(chk, pw.scale(300, 5000), h_import.run_new, 'work', offset=500000, mine=IMPORT)
    return chk.finish()
