"""C29: saved project files have the form yWriter accepts."""
import pw
import yw7_common as yc

MINE = [r'form\.', r'save\.outcome']


def run():
    chk = pw.Check('C29', 'model_checking')
    yc.histories(chk, pw.scale(200, 3000), MINE, offset=900000)
    yc.histories(chk, pw.scale(60, 500), MINE, size=1, new=0.6, offset=950000)
    return chk.finish()
