"""C12: spreadsheet exports and imports agree row by row."""
import h_export
import h_import
import pw

MINE = [r'export_', r'import_', r'same_']


def run():
    chk = pw.Check('C12', 'model_checking')
    for n, make in enumerate(('world', 'crowd', 'skeleton')):
        h_export.run(chk, pw.scale(150, 2500), make, h_export.SHEETS, offset=100000 * n, mine=MINE)
        h_import.run(chk, pw.scale(120, 2500), h_import.run_edited, make, h_import.SHEETS, offset=300000 + 100000 * n, mine=MINE)
        h_import.run(chk, pw.scale(50, 1000), h_import.run_same, make, h_import.SHEETS, offset=600000 + 100000 * n, mine=MINE)
    h_import.replay_rows(chk, pw.scale(1600, None), MINE)
    return chk.finish()
