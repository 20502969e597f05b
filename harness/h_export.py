"""Recorded exports: documents made from projects, read back by an independent reader."""
import os
import re
import shutil

import gen
import h_doc
import proj
import pw

KINDS = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations',
         '_charlist', '_loclist', '_itemlist', '_scenelist', '_xref', '_notes', '_todo']
SHEETS = ('_charlist', '_loclist', '_itemlist', '_scenelist')
FORMATTED = ('', '_manuscript', '_proof', '_notes', '_todo')
NO_PKG = {'first': '', 'mime': '', 'root': '', 'names': [], 'dups': 0, 'listed': [], 'body': '', 'dated': 'F',
          'meta': {'title': '', 'author': '', 'desc': '', 'lang': '', 'country': ''}}

LANGS = ['de-DE', 'en-GB', 'fr-FR', 'de', 'es-ES']
TOKENS = ['[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '[lang=en-GB]', '[/lang=en-GB]', '[lang=de]', '[/lang=de]']
NO_FORMAT = ['[c]', '[/c]', '[r]', '[/r]', '[u]', '[/u]', '[s]', '[/s]', '[h1]', '[/h1]', '[h3]', '[/h3]', '[h12]', '[/h12]', '[x]', '[1]', '[]', '[i', 'i]', '[b ]', '[I]']
NOTES = ['/*note*/', '/* a note */', '/*two\nlines*/', '/*a\n\nb*/', '/*@fn foot*/', '/*@en end*/', '/*@fn* star*/', '/* @fn a\nb*/', '/*@fn1 x*/',
         '/*[i]it[/i]*/', '/*a & b*/', "/*'*/", '/*/', '/**/', '/* */', '/*@en*/', '/*> q*/', '/*[b]*/', '/*x']
LINES = ['\n', '\n', '\n\n', '\n\n\n', '\n> ', '\n>', '\n- ', '\n# ', '\n* * *\n']
CODES = ['<HTM a /HTM>', '<TEX b/TEX>', '<RTFBRK>', '<RTF x\ny /RTF>', '<epub z /epub>', '<HTM>', '/HTM>']


def legal(s):
    """Characters outside the BMP count twice in TLC, so they are left to the project-file histories."""
    return ''.join(c for c in gen.legal(s) if ord(c) < 0x10000)


def markup(g, n=None, alphabet=None):
    """A text of a scene."""
    n = n or g.r.choice([1, 2, 3, 5, 8, 13, 21, 40])
    out = []
    for __ in range(n):
        k = g.r.random()
        if k < 0.35:
            out.append(g.pick(gen.WORDS))
        elif k < 0.5:
            out.append(' ')
        elif k < 0.7:
            out.append(g.pick(TOKENS))
        elif k < 0.75:
            out.append(g.pick(NO_FORMAT))
        elif k < 0.86:
            out.append(g.pick(LINES))
        elif k < 0.92:
            out.append(g.pick(NOTES))
        elif k < 0.94:
            out.append(g.pick(CODES))
        else:
            out.append(g.piece())
    return sane(''.join(out))


TAG = r'(?:\[/?(?:[ib]|lang=[^\]]*|[hcrsu]\d*)\])'


def sane(s):
    """Leave out what is not specified: quotation marks that have a tag or a comment before them, or nothing after them."""
    s = legal(s)
    s = re.sub(r'\[/?lang=\]', '', s)
    s = re.sub(r'\[lang=[^\]]*\n[^\]]*\]', '', s)
    s = re.sub(r'((?:\*/|\[/?[hcrsu]\d*\])' + TAG + r'*)>', r'\1 >', s)
    s = re.sub(r'>(?=\[)', '>q', s)
    s = re.sub(r'>(?=(?:\s|' + TAG + r')*($|\*/))', '>q', s)
    return s


def text(g):
    def f(multi=True):
        if g.chance(0.25):
            return sane(markup(g, 5)) if multi else gen.trim(legal(' '.join(markup(g, 4).split())))
        return gen.trim(legal(g.text() if multi else g.line()))
    return f


def plain(multi=True):
    return 'x'


def world(g, size=None, p=0.6):
    """A project whose scenes hold formatted texts."""
    d = gen.project(g, size, p, text(g))
    for s in d['scs']:
        k = g.r.random()
        s['content'] = proj.NULL if k < 0.08 else '' if k < 0.12 else markup(g)
        if g.chance(0.04):
            s['content'] = g.pick(['<HTML>', '<TEX>']) + s['content'].replace(proj.NULL, '')
        if g.chance(0.2):
            s['status'] = proj.NULL
        for f in ('f1', 'f2', 'f3', 'f4'):
            if g.chance(0.2):
                s[f] = '1'
    if g.chance(0.5):
        for s in d['scs']:
            s['typ'], s['dne'] = '0', 'F'
        for c in d['chs']:
            c['typ'] = '0'
    for c in d['chs']:
        if g.chance(0.3):
            # a chapter in which no scene is exported
            for s in d['scs']:
                if s['id'] in c['scs']:
                    s['dne'] = 'T'
    return d


def skeleton(g):
    """A project with many chapters and scenes and hardly any text: types and flags."""
    scs, chs = [], []
    n = g.r.randint(1, 7)
    sid = 0
    for i in range(n):
        typ = g.pick('00000123')
        ids = []
        for __ in range(g.r.choice([0, 1, 2, 2, 3, 4])):
            sid += 1
            s = gen.scene(g, str(sid), [], [], [], 0, lambda multi=True: 'x')
            s.update({'title': f's{sid}', 'desc': f'd{sid}' if g.chance(0.7) else proj.NULL, 'typ': g.pick('000000123') if typ == '0' else typ,
                      'dne': g.pick('FFFFT'), 'app': g.pick('FFT'),
                      'content': g.pick([proj.NULL, '', f'c{sid}', f'c{sid}', f'c{sid}', f'<HTML>{sid}', f'<TEX>{sid}', f' <HTML>{sid}'])})
            scs.append(s)
            ids.append(str(sid))
        c = gen.chapter(g, str(i + 1), ids, 0, lambda multi=True: 'x')
        c.update({'title': f'ch{i + 1}', 'desc': f'D{i + 1}' if g.chance(0.7) else proj.NULL, 'typ': typ, 'lev': g.pick('0001'), 'supT': g.pick('FFFT')})
        chs.append(c)
    if g.chance(0.3):
        g.r.shuffle(chs)
    for c in chs:
        if g.chance(0.2):
            for s in scs:
                if s['id'] in c['scs']:
                    s['dne'] = 'T'
    d = gen.project(g, 0, 0.3, lambda multi=True: 'x')
    d['chs'], d['scs'] = chs, scs
    return d


NAMES = ['p', 'My Novel', 'Ärger & Co', "it's", 'a_b', '50%', 'x#1', 'a+b', 'novel_manuscript', '日本', 'a;b', 'q"q', 'p.v2', '(1)']


def target(kind, path, novel):
    """The document of this kind for the project, as the converter would set it up."""
    from pywriter.converter.yw7_converter import Yw7Converter
    for cls in Yw7Converter.EXPORT_TARGET_CLASSES:
        if cls.SUFFIX == kind:
            t = cls(path, suffix=kind)
            t.novel = novel
            return t
    raise pw.HarnessError(f'no document class for {kind!r}')


def record(kind, name, before, path, kindmsg, after):
    e = {'ev': 'export', 'kind': kind, 'novel': before, 'name': name, 'dir': os.path.dirname(path), 'out': kindmsg[0], 'msg': kindmsg[1] or '',
         'broken': '', 'pkg': NO_PKG, 'blocks': [], 'rows': [], 'stray': [], 'after': after}
    if e['out'] == 'ok':
        try:
            pkg, blocks, rows, stray = h_doc.document(path)
            pkg['dated'] = proj.v(pkg['dated'])
            e.update({'pkg': pkg, 'blocks': blocks, 'rows': rows, 'stray': stray})
        except Exception as ex:
            e['broken'] = f'{type(ex).__name__}: {ex}'
            e['msg'] = e['broken']
    return e


def export(d, kind, name, novel=None, kept=None):
    """Make one document from project d; -> event. kept: the document objects used so far, to be used again"""
    novel = novel or proj.make_novel(d)
    ext = '.ods' if kind in SHEETS else '.odt'
    path = os.path.join(os.getcwd(), f'{name}{kind}{ext}')
    if os.path.exists(path):
        os.remove(path)
    before = proj.novel(novel)

    def write():
        t = kept.get(kind) if kept is not None else None
        if t is None:
            t = target(kind, path, novel)
        t.novel = novel
        if kept is not None:
            kept[kind] = t
        return t.write()

    res = pw.outcome(write)
    return record(kind, name, before, path, res, proj.novel(novel))


def run_export(job):
    """job: {'seed', 'kinds', 'make'} -> trace"""
    g = gen.Gen(job['seed'])
    wd = os.path.join(os.getcwd(), 'x')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.chdir(wd)
    name = g.pick(NAMES) if g.chance(0.5) else 'p'
    make = {'world': world, 'skeleton': skeleton, 'crowd': crowd}.get(job['make'])
    d = job.get('novel') or make(g)
    ev = []
    novel = proj.make_novel(d)
    kinds = job['kinds'] or [g.pick(KINDS) for __ in range(3)]
    for kind in kinds:
        ev.append(export(d, kind, name, novel if job.get('same') else None))
    if job.get('reuse'):
        # one document object is used again, for the same project, a changed one, or another one
        kept = {}
        for k in range(2):
            for kind in kinds:
                ev.append(export(d, kind, name, novel if job.get('same') else None, kept))
            if g.chance(0.7):
                d = make(g)
                novel = proj.make_novel(d)
    os.chdir('..')
    shutil.rmtree(wd, ignore_errors=True)
    return {'seed': job['seed'], 'ev': ev}


# ---------------------------------------------------------------- cases enumerated by the models

def packed(g, cases):
    """A project of many small chapters (cases of MC_Doc)."""
    d = gen.project(g, 0, 0.3, plain)
    sid = 0
    for n, c in enumerate(cases, 1):
        ids = []
        for s in c['scs']:
            sid += 1
            e = gen.scene(g, str(sid), [], [], [], 0, plain)
            e.update({'title': f's{sid}', 'desc': f'd{sid}', 'content': f'{s["code"]}c{sid}', 'typ': s['typ'], 'dne': s['dne'], 'app': s['app']})
            d['scs'].append(e)
            ids.append(str(sid))
        ch = gen.chapter(g, str(n), ids, 0, plain)
        ch.update({'title': f'ch{n}', 'desc': f'D{n}', 'typ': c['typ'], 'lev': c['lev'], 'supT': g.pick('FFFT')})
        d['chs'].append(ch)
    return d


def texts_project(g, texts, langs=(proj.NULL,)):
    """A project with one scene per text."""
    d = gen.project(g, 0, 0.3, plain)
    d['prj']['author'] = 'A'
    d['prj']['languages'] = list(langs)
    ids = []
    for n, t in enumerate(texts, 1):
        e = gen.scene(g, str(n), [], [], [], 0, plain)
        e.update({'content': t, 'typ': '0', 'dne': 'F', 'app': 'F', 'title': 't'})
        d['scs'].append(e)
        ids.append(str(n))
    ch = gen.chapter(g, '1', ids, 0, plain)
    ch.update({'typ': '0', 'lev': '0', 'supT': 'F', 'title': 'c'})
    d['chs'].append(ch)
    return d


def crowd(g):
    """A project with many relations between scenes, world elements, and tags."""
    d = gen.project(g, g.pick([1, 2, 3, 4, 4, 9]), 0.2, text(g) if g.chance(0.3) else (lambda multi=True: g.pick('abcdefgh')))
    tags = [g.tag() if g.chance(0.3) else t for t in ('red', 'blue', 'Red', 'x y')]
    tags = gen.uniq([legal(t) or 'x' for t in tags])
    for e in d['scs'] + d['crs'] + d['lcs'] + d['its']:
        e['tags'] = g.pick([[proj.NULL], [], g.r.sample(tags, g.r.randint(1, len(tags))), g.r.sample(tags, 1)])
    for s in d['scs']:
        for f, k in (('chars', 'crs'), ('locs', 'lcs'), ('items', 'its')):
            ids = [e['id'] for e in d[k]]
            s[f] = g.r.sample(ids, g.r.randint(0, len(ids))) or g.pick([[proj.NULL], []])
    return d


def run(chk, n, make, kinds=None, offset=0, same=False, mine=('',), reuse=False):
    """Record n exports of projects of this make and judge them."""
    jobs = [{'seed': chk.seed * 1000003 + offset + i, 'make': make, 'kinds': kinds, 'same': same, 'reuse': reuse} for i in range(n)]
    return judge(chk, pw.elsewhere(run_export, jobs[:n // 8]) + pw.parallel(run_export, jobs[n // 8:]), mine)


def judge(chk, traces, mine=('',), chunk=400):
    import yw7_common as yc
    for t in traces[:2]:
        if 'ev' in t:
            e = t['ev'][0]
            chk.sample({'seed': t['seed'], 'kind': e['kind'], 'blocks': e['blocks'][:12], 'rows': e['rows'][:3], 'pkg': e['pkg']['meta']})
    chk.count(documents=sum(len(t.get('ev', ())) for t in traces))
    yc.run_traces(chk, traces, mine, module='JudgeDoc', chunk=chunk)
    return traces


def model_cases(chk, module, cfg, lines=True, min_states=300):
    """Run an exhaustive model; return the cases it enumerates."""
    import json
    out = os.path.join(pw.scratch(), f'{module}.ndjson')
    chk.add_tlc(pw.model_check(module, cfg=cfg, env={'OUT': out}, min_states=min_states))
    with open(out, encoding='utf-8') as f:
        cases = [json.loads(line) for line in f]
    os.remove(out)
    return cases if lines else cases[0]
