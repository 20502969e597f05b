"""C26: a template-based export writes every element with the template it calls for."""
import h_template
import pw

MINE = [r'template']


def run():
    chk = pw.Check('C26', 'model_checking')
    h_template.replay(chk, 'MC_Template.cfg', MINE, limit=pw.scale(2500, None))
    h_template.run(chk, pw.scale(600, 12000), MINE)
    return chk.finish()
