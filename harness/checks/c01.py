"""C01: a saved project reads back exactly."""
import pw
import yw7_common as yc


def run():
    chk = pw.Check('C01', 'model_checking')
    n = pw.scale(160, 2500)
    yc.histories(chk, n, [r'load\.', r'save\.', r'stable', r'memory\.'])
    return chk.finish()
