"""C09: importing changes what the document carries and nothing else."""
import h_import
import pw

MINE = [r'import_']


def run():
    chk = pw.Check('C09', 'model_checking')
    h_import.replay(chk, h_import.run_sections, 'MC_Sections', 'MC_Sections.cfg', MINE, limit=pw.scale(3000, None))
    h_import.run(chk, pw.scale(700, 12000), h_import.run_edited, 'world', mine=MINE)
    h_import.run(chk, pw.scale(30, 500), h_import.run_edited, 'world', h_import.KINDS, offset=100000, mine=MINE)
    h_import.run(chk, pw.scale(150, 3000), h_import.run_edited, 'skeleton', h_import.SECTIONED, offset=200000, mine=MINE)
    h_import.run(chk, pw.scale(100, 2000), h_import.run_edited, 'crowd', h_import.PLAIN, offset=300000, mine=MINE)
    h_import.run(chk, pw.scale(120, 2500), h_import.run_edited, 'world', offset=400000, mine=MINE, reorganise=True)
    h_import.run(chk, pw.scale(60, 1000), h_import.run_edited, 'skeleton', h_import.SECTIONED, offset=500000, mine=MINE, reorganise=True)
    return chk.finish()
