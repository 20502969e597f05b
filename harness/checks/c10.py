"""C10: splitting scenes in a document yields exactly the marked structure."""
import h_import
import pw

MINE = [r'import']


def run():
    chk = pw.Check('C10', 'model_checking')
    h_import.replay(chk, h_import.run_lines, 'MC_Split', pw.scale('MC_Split.cfg', 'MC_Split4.cfg'), MINE)
    h_import.run(chk, pw.scale(300, 6000), h_import.run_edited, 'world', ['_manuscript', '_proof'], offset=100000, mine=MINE, dividers=0.4)
    h_import.run(chk, pw.scale(100, 2000), h_import.run_edited, 'world', ['_notes', '_todo'], offset=200000, mine=MINE, dividers=0.4)
    h_import.run(chk, pw.scale(150, 3000), h_import.run_edited, 'skeleton', ['_manuscript', '_proof'], offset=300000, mine=MINE, dividers=0.4)
    h_import.run(chk, pw.scale(150, 3000), h_import.run_new, 'work', offset=400000, mine=MINE, dividers=0.5)
    return chk.finish()
