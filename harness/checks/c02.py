"""C02: saving leaves everything alone that this program does not manage."""
import pw
import yw7_common as yc


def run():
    chk = pw.Check('C02', 'model_checking')
    yc.histories(chk, pw.scale(160, 2500), [r'frame\.'], new=0, offset=200000)
    return chk.finish()
