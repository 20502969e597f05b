"""C27: opening a document starts one viewer, on exactly that document."""
import h_launch
import pw

MINE = [r'launch']


def run():
    chk = pw.Check('C27', 'model_checking')
    h_launch.run(chk, pw.scale(700, 6000), pw.scale('MC_Launch.cfg', 'MC_Launch3.cfg'), MINE)
    return chk.finish()
