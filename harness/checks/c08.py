"""C08: exporting and importing an unedited document changes nothing."""
import h_import
import pw

MINE = [r'same']


def run():
    chk = pw.Check('C08', 'model_checking')
    h_import.run(chk, pw.scale(350, 6000), h_import.run_same, 'world', mine=MINE)
    h_import.run(chk, pw.scale(20, 400), h_import.run_same, 'world', h_import.KINDS, offset=100000, mine=MINE)
    h_import.run(chk, pw.scale(100, 2000), h_import.run_same, 'crowd', offset=200000, mine=MINE)
    h_import.run(chk, pw.scale(100, 2000), h_import.run_same, 'skeleton', offset=300000, mine=MINE)
    h_import.run(chk, pw.scale(150, 3000), h_import.run_chain, 'world', offset=400000, mine=MINE)
    h_import.run(chk, pw.scale(50, 1000), h_import.run_chain, 'crowd', offset=500000, mine=MINE)
    h_import.run(chk, pw.scale(24, 200), h_import.run_same, 'bulk', ['_proof'], offset=600000, mine=MINE, chunk=12)
    h_import.run(chk, pw.scale(8, 80), h_import.run_same, 'bulk', ['_manuscript', '_scenes'], offset=700000, mine=MINE, chunk=4)
    return chk.finish()
