"""C03: chapter and scene types, their inheritance, and the export flags."""
import h_codec
import pw
import yw7_common as yc

MINE = [r'(load|save)\.(sc|ch)\.(typ|dne|app|react|sub|lev|supT|supB|trash)', r'enc\.(scene|chapter|export)', r'(load|save)\.outcome']


def run():
    chk = pw.Check('C03', 'model_checking')
    jobs = h_codec.enumerate_cases(chk, ('sctype', 'chtype', 'dne'), per=30)
    traces = pw.parallel(h_codec.replay, jobs)
    yc.run_traces(chk, traces, MINE)
    yc.histories(chk, pw.scale(100, 1500), MINE, offset=500000)
    return chk.finish()
