"""C18: scene start and duration."""
import h_codec
import pw
import yw7_common as yc

MINE = [r'(load|save)\.sc\.(date|time|day|ld|lh|lm)', r'(load|save)\.outcome', r'enc\.start']


def run():
    chk = pw.Check('C18', 'model_checking')
    jobs = h_codec.enumerate_cases(chk, ('start',), per=60)
    traces = pw.parallel(h_codec.replay, jobs)
    yc.run_traces(chk, traces, MINE)
    yc.histories(chk, pw.scale(80, 1500), MINE, offset=600000)
    return chk.finish()
