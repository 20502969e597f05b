"""C19: word and letter counts."""
import json
import os

import gen
import h_export
import h_template
import h_yw7
import proj
import pw
import yw7_common as yc

TOKENS = ['a', 'word', 'Straße', ' ', ' ', ' ', '\n', '\n\n', '-', '--', '---', '—', '–', '[i]', '[/i]', '[b]', '[', ']', '[]', '[x y]', '/*', '*/',
          '/* c d */', '/**/', '/* e\n f */', '> ', '>', '\n> ', '/', '*', '\t', '\u00a0', '\u2003', '\u200b', '\u3000', '…', '.', ',', '*/*', '/*/',
          '[lang=de-DE]', '[/lang=de-DE]', '/*@fn1 a*/', "don't", '‐', '−', '\\', '|', '_', '&', '<b>', '1,5', 'e.g.', '#', '~', '“', '日本']


def text(g):
    n = g.r.choice([1, 2, 3, 5, 8, 13, 30])
    s = ''.join(g.pick(TOKENS) if g.chance(0.85) else g.piece() for __ in range(n))
    return ''.join(c for c in gen.legal(s) if ord(c) < 0x10000)


def counts(kind, pairs):
    return {'ev': kind, 'counts': [{'text': t, 'wc': str(w), 'lc': str(l)} for t, w, l in pairs]}


def of(scenes):
    return [(proj.v(s.sceneContent), s.wordCount, s.letterCount) for s in scenes]


def run_texts(job):
    """Counts follow the text that was set last."""
    from pywriter.model.scene import Scene
    s = Scene()
    out = [('\\N', s.wordCount, s.letterCount)]
    for t in job['texts']:
        s.sceneContent = t
        out.append((t, s.wordCount, s.letterCount))
    return {'seed': job['seed'], 'ev': [counts('set', out)]}


def run_files(job):
    """Counts of texts read from a project file that claims other counts."""
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    g = gen.Gen(job['seed'])
    path = os.path.join(os.getcwd(), f'c{job["seed"]}.yw7')
    E = gen.E
    scs = [E('SCENE', None, E('ID', str(i + 1)), E('Title', 'x'),
             *([E('SceneContent', gen.trim(text(g)))] if g.chance(0.9) else []),
             *([E('WordCount', '7'), E('LetterCount', '8')] if g.chance(0.5) else []))
           for i in range(g.r.randint(1, 6))]
    root = E('YWRITER7', None, E('PROJECT', None, E('Ver', '7')), E('LOCATIONS'), E('ITEMS'), E('CHARACTERS'), E('SCENES', None, *scs),
             E('CHAPTERS', None, E('CHAPTER', None, E('ID', '1'), E('Scenes', None, *[E('ScID', str(i + 1)) for i in range(len(scs))]))))
    with open(path, 'wb') as f:
        f.write(gen.xml_text(g, root))
    f = Yw7File(path)
    f.novel = Novel()
    f.read()
    ev = [counts('read', of(f.novel.scenes.values()))]
    for s in f.novel.scenes.values():
        if g.chance(0.5):
            s.sceneContent = gen.trim(text(g))
    ev.append(counts('edit', of(f.novel.scenes.values())))
    f.write()
    ev.append(counts('write', of(f.novel.scenes.values())))
    f.novel = Novel()
    f.read()
    ev.append(counts('reread', of(f.novel.scenes.values())))
    for p in (path, path + '.bak'):
        if os.path.exists(p):
            os.remove(p)
    return {'seed': job['seed'], 'ev': ev}


def run():
    chk = pw.Check('C19', 'model_checking')
    out = os.path.join(pw.scratch(), 'texts.json')
    cfg = pw.scale('MC_Count.cfg', 'MC_Count5.cfg')
    chk.add_tlc(pw.model_check('MC_Count', cfg=cfg, env={'OUT': out}, min_states=10000))
    with open(out, encoding='utf-8') as f:
        texts = json.load(f)
    os.remove(out)
    chk.count(model_cases_replayed=len(texts))
    per = 500
    jobs = [{'seed': -k, 'texts': texts[k:k + per]} for k in range(0, len(texts), per)]
    for k in range(pw.scale(40, 400)):
        g = gen.Gen(chk.seed * 1000003 + k)
        jobs.append({'seed': k, 'texts': [text(g) for __ in range(50)]})
    traces = pw.parallel(run_texts, jobs)
    traces += pw.parallel(run_files, [{'seed': chk.seed * 1000003 + 10000 + k} for k in range(pw.scale(200, 2000))])
    for t in traces[-2:]:
        chk.sample(t)
    yc.run_traces(chk, traces, [''], module='JudgeCount')
    yc.histories(chk, pw.scale(60, 600), ['stalecounts'], new=0, offset=700000)
    # where the counts are shown
    h_export.run(chk, pw.scale(100, 1500), 'world', ['_scenelist'], offset=800000, mine=['export_'])
    h_template.totals(chk, pw.scale(300, 4000), ['template'])
    return chk.finish()
