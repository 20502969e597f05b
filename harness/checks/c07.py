"""C07: exported documents are always valid, whatever the text."""
import h_export
import pw


def run():
    chk = pw.Check('C07', 'model_checking')
    h_export.run(chk, pw.scale(1500, 20000), 'world')
    h_export.run(chk, pw.scale(150, 2000), 'world', h_export.KINDS, offset=100000)
    h_export.run(chk, pw.scale(100, 1000), 'world', h_export.KINDS, offset=200000, same=True)
    h_export.run(chk, pw.scale(100, 1000), 'skeleton', offset=300000)
    h_export.run(chk, pw.scale(100, 1000), 'world', None, offset=350000, reuse=True)
    return chk.finish()
