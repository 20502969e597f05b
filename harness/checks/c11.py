"""C11: unique IDs, valid references."""
import h_import
import pw
import yw7_common as yc

MINE = [r"import.*\.integrity\.", r"import.*\.outcome", r"import.*\.project\.(..\.#order|ch\.scs|sc\.(chars|locs|items))"]


def run():
    chk = pw.Check('C11', 'model_checking')
    yc.histories(chk, pw.scale(160, 2500), [r'integrity\.'], offset=500009)
    # new elements: split scenes, new rows, unknown sections, new projects
    h_import.run(chk, pw.scale(150, 3000), h_import.run_edited, 'crowd', h_import.FORMATTED, offset=100000, mine=MINE, dividers=0.5)
    h_import.run(chk, pw.scale(150, 3000), h_import.run_edited, 'crowd', h_import.SHEETS, offset=200000, mine=MINE)
    h_import.run(chk, pw.scale(100, 2000), h_import.run_new, 'work', offset=300000, mine=MINE, dividers=0.5)
    return chk.finish()
