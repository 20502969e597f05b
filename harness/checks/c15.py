"""C15: a new project made from a manuscript or outline holds all of it."""
import h_import
import pw

MINE = [r'import']


def run():
    chk = pw.Check('C15', 'model_checking')
    h_import.replay(chk, h_import.run_blocks, 'MC_Work', pw.scale('MC_Work.cfg', 'MC_Work5.cfg'), MINE, limit=pw.scale(5000, None))
    h_import.run(chk, pw.scale(1000, 20000), h_import.run_new, 'work', mine=MINE)
    h_import.run(chk, pw.scale(400, 8000), h_import.run_new, 'outline', offset=100000, mine=MINE)
    return chk.finish()
