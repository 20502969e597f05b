"""Recorded imports: documents written back to project files, and projects made from documents."""
import os
import random
import re
import shutil

import gen
import h_doc
import h_export
import h_write
import proj
import pw
from checks.c04 import Ui, write_new

SECTIONED = ['_manuscript', '_notes', '_todo']
FORMATTED = SECTIONED + ['_proof']
PLAIN = ['_scenes', '_chapters', '_parts', '_characters', '_items', '_locations']
DOCS = FORMATTED + PLAIN
SHEETS = list(h_export.SHEETS)
KINDS = DOCS + SHEETS


def ext(kind):
    return '.ods' if kind in SHEETS else '.odt'


def convert(path, **kwargs):
    """Run the converter; -> (outcome, messages, warnings)"""
    from pywriter.converter.yw7_converter import Yw7Converter
    ui = Ui()
    c = Yw7Converter()
    c.ui = ui
    kind, msg = pw.outcome(lambda: c.run(path, **kwargs))
    if kind == 'ok':
        kind = {'success': 'ok', 'failure': 'failed', 'nothing': 'silent'}[ui.told()]
        msg = ui.how[-1] if ui.how else ''
    return kind, msg or '', ui


def read_doc(path):
    pkg, blocks, rows, stray = h_doc.document(path, bare=True)
    return {'blocks': blocks, 'rows': rows, 'meta': pkg['meta']}


EMPTY_DOC = {'blocks': [], 'rows': [], 'meta': h_export.NO_PKG['meta']}


def import_event(kind, path, project, doc):
    """Write the document at path back to the project file (or make a new one)."""
    before = proj.file_tree(project) if os.path.exists(project) else proj.NO_TREE
    out, msg, ui = convert(path)
    after = proj.NO_TREE
    if out == 'ok':
        try:
            after = proj.file_tree(project)
        except Exception as ex:
            out, msg = f'unreadable', f'{type(ex).__name__}: {ex}'
    return {'ev': 'import', 'kind': kind, 'before': before, 'after': after, 'blocks': doc['blocks'], 'rows': doc['rows'], 'meta': doc['meta'],
            'out': out, 'msg': msg, 'told': proj.v(bool(ui.warnings)), 'again': ''}


def same_event(kind, name):
    """Export, and write back without an edit; then once more."""
    project = f'{name}.yw7'
    doc = f'{name}{kind}{ext(kind)}'
    before = proj.file_tree(project)
    e = {'ev': 'same', 'kind': kind, 'before': before, 'after': proj.NO_TREE, 'out': '', 'msg': '', 'told': 'F', 'again': '', 'third': proj.NO_TREE}
    for turn in (1, 2):
        out, msg, ui = convert(os.path.abspath(project), suffix=kind)
        if out == 'ok':
            out, msg, ui = convert(os.path.abspath(doc))
        if turn == 1:
            e.update({'out': out, 'msg': msg, 'told': proj.v(bool(ui.warnings))})
            if out != 'ok':
                break
            e['after'] = proj.file_tree(project)
        elif out != 'ok':
            e['again'] = out
            e['msg'] = msg
        else:
            e['third'] = proj.file_tree(project)
    return e


# ---------------------------------------------------------------- edits

LANGS = ['de-DE', 'en-GB', 'fr-FR', 'de', 'es-ES']


def clean(s, multi=False):
    """Text that nobody could take for markup."""
    s = h_export.legal(s)
    for c in '[]#~|*/\t':
        s = s.replace(c, '')
    s = s.replace('\n', ' ').replace('Heading_20_', 'Heading')
    return s


def words(g, n=None):
    return ' '.join(clean(g.pick(gen.WORDS)) for __ in range(n or g.r.choice([1, 1, 2, 3, 6, 12])))


def T(x, f=()):
    return {'t': 't', 'x': x, 'f': list(f), 'a': '', 'p': []}


def fmt(g, nested=False):
    f = []
    if g.chance(0.5):
        f.append('b')
    if g.chance(0.5):
        f.append('i')
    if g.chance(0.35):
        f.append('lang=' + g.pick(LANGS))
    return f


def note(g, kind='c'):
    ps = [{'s': '', 'r': [T((clean(g.piece()) + words(g, 2)).strip() or 'x')]} for __ in range(g.r.choice([1, 1, 1, 2]))]
    for q in ps:
        if g.chance(0.15):
            q['r'][0]['x'] += g.pick(['\t', '\n', '  ']) + words(g, 1)
    if kind == 'c':
        return {'t': 'c', 'x': 'Me', 'f': [], 'a': '', 'p': ps}
    return {'t': 'n', 'x': kind + ' ' + g.pick(['1', 'i', '*']), 'f': [], 'a': '', 'p': ps}


def runs(g, rich=True, breaks=True, n=None):
    """The content of a paragraph."""
    out = []
    for __ in range(n or g.r.choice([1, 1, 2, 3, 5])):
        k = g.r.random()
        if not rich or k < 0.55:
            x = words(g)
            if g.chance(0.2):
                x = clean(g.piece())
            if g.chance(0.15):
                x += ' ' * g.r.randint(1, 3) + words(g, 1)
            out.append(T(x + g.pick(['', ' '])))
        elif k < 0.85:
            out.append(T(words(g), fmt(g)))
        elif k < 0.93:
            out.append(note(g))
        elif k < 0.97:
            out.append(note(g, g.pick(['footnote', 'endnote'])))
        else:
            out.append(T(g.pick([' ', '  ']), fmt(g)))
        if breaks and g.chance(0.06):
            out.append(T(g.pick(['\n', '\t', '\n\t']), [f for f in fmt(g) if f in 'bi'] if rich and g.chance(0.3) else ()))
    return out


def para(g, rich=True, lists=True):
    k = g.r.random()
    if k < 0.1:
        return {'k': 'p', 's': 'Text_20_body', 'r': []}
    if k < 0.2:
        return {'k': 'p', 's': 'Quotations', 'r': runs(g, rich)}
    if k < 0.3 and lists:
        return {'k': 'li', 's': 'Text_20_body', 'r': runs(g, rich)}
    return {'k': 'p', 's': g.pick(['Text_20_body', 'First_20_line_20_indent', 'Standard']), 'r': runs(g, rich)}


def divider(g, levels=(1, 2)):
    n = g.pick(levels)
    x = words(g, g.r.randint(1, 4)) + (g.pick(['|', ' | ']) + words(g, 3) if g.chance(0.3) else '')
    k = g.r.random()
    if k < 0.5 and n < 3:
        return {'k': f'h{n}', 's': f'Heading_20_{n}', 'r': [T(x)]}
    marks = '#' * n
    return {'k': 'p', 's': 'Text_20_body', 'r': [T(marks + g.pick([' ', ' ', '', '  ']) + g.pick([x, x, x, '']))]}


def inside(blocks, kind):
    """The indexes of the paragraphs that hold texts."""
    out = []
    stack = []
    on = False
    for i, b in enumerate(blocks):
        if b['k'] == 'sec':
            stack.append(b['s'])
        elif b['k'] == 'end':
            stack.pop()
        else:
            x = ''.join(r['x'] for r in b['r'] if r['t'] == 't')
            if kind == '_proof':
                if '[ScID' in x:
                    on = True
                elif '[/ScID' in x:
                    on = False
                elif on:
                    out.append(i)
            elif kind in SECTIONED + ['_scenes']:
                if any(s.startswith('ScID') for s in stack):
                    out.append(i)
            elif kind in ('_chapters', '_parts'):
                if any(s.startswith('ChID') for s in stack) and b['k'] == 'p':
                    out.append(i)
            elif kind == '_characters':
                if any(s.startswith('CrID_') for s in stack):
                    out.append(i)
            elif stack and b['k'] == 'p':
                out.append(i)
    return out


def edit_doc(g, kind, blocks, dividers=0.0, n=None):
    """Edit the document as an author might."""
    rich = kind in FORMATTED
    blocks = [dict(b) for b in blocks]
    for __ in range(n or g.r.choice([1, 2, 3, 5, 8])):
        at = inside(blocks, kind)
        k = g.r.random()
        if at and k < dividers:
            blocks.insert(g.pick(at) + g.pick([0, 1]), divider(g, (1, 2, 3)))
        elif not at:
            pass
        elif k < 0.5:
            i = g.pick(at)
            if blocks[i]['k'] in ('p', 'li'):
                blocks[i]['r'] = runs(g, rich)
        elif k < 0.75:
            blocks.insert(g.pick(at) + g.pick([0, 1]), para(g, rich))
        elif k < 0.85:
            del blocks[g.pick(at)]
        elif k < 0.9:
            # one of the author's own sections
            i = g.pick(at)
            blocks[i:i + 1] = [{'k': 'sec', 's': g.pick(['Section1', 'Bereich 2', 'Notes ScID', 'x']), 'r': []}, blocks[i], {'k': 'end', 's': '', 'r': []}]
        elif k < 0.94:
            blocks[0:0] = [para(g, False, False)]
        else:
            # remove a whole section
            i = next((j for j in range(g.pick(at), -1, -1) if blocks[j]['k'] == 'sec'), None)
            if i is not None:
                depth = 0
                for j in range(i, len(blocks)):
                    depth += {'sec': 1, 'end': -1}.get(blocks[j]['k'], 0)
                    if depth == 0:
                        del blocks[i:j + 1]
                        break
    return blocks


WIDTH = {'_charlist': 10, '_loclist': 5, '_itemlist': 5, '_scenelist': 21}
MARK = {'_charlist': 'CrID:', '_loclist': 'LcID:', '_itemlist': 'ItID:'}


def cell(x):
    return {'x': x, 'a': '', 'v': '', 'y': ''}


def some_cell(g, kind, j):
    """A value for the cell in column j."""
    if kind == '_scenelist' and 11 <= j <= 14:
        return g.pick(['', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '10', '11', '5.5', 'x'])
    if kind == '_scenelist' and j == 17:
        return g.pick(['Outline', 'Draft', '1st Edit', '2nd Edit', 'Done', '', 'draft', 'x'])
    if kind == '_scenelist' and j == 5:
        return g.pick(['A', 'R', 'r', '', 'Reaction', 'Action', 'A/R', 'x'])
    if kind == '_charlist' and j == 7:
        return g.pick(['Major', 'Minor', '', 'x'])
    if j == (8 if kind == '_charlist' else 3 if kind == '_scenelist' else 4):
        return g.pick(['', ', '.join(clean(g.tag()).strip() or 't' for __ in range(g.r.randint(1, 3))), 'a, a, b', 'a, '])
    return g.pick(['', words(g), '\n'.join(words(g, 2) for __ in range(3)), clean(g.piece()).strip(), words(g, 2) + '\n\n' + words(g, 1)])


def edit_sheet(g, kind, rows):
    rows = [[dict(c) for c in r] + [cell('')] * (WIDTH[kind] - len(r)) for r in rows]
    data = rows[1:]
    for __ in range(g.r.choice([1, 2, 3, 5, 8])):
        k = g.r.random()
        if data and k < 0.7:
            r = g.pick(data)
            for j in (range(1, WIDTH[kind]) if g.chance(0.3) else [g.r.randrange(1, WIDTH[kind])]):
                r[j] = cell(some_cell(g, kind, j))
        elif data and k < 0.78:
            data.remove(g.pick(data))
        elif data and k < 0.86:
            g.r.shuffle(data)
        elif kind == '_scenelist':
            pass
        elif k < 0.95:
            # a new one
            data.insert(g.r.randint(0, len(data)), [cell(MARK[kind] + str(g.r.randint(1, 30)))] + [cell(some_cell(g, kind, j)) for j in range(1, WIDTH[kind])])
        elif data:
            r = [dict(c) for c in g.pick(data)]
            r[1] = cell(words(g))
            data.append(r)
    return rows[:1] + data


def work(g, dividers=0.05):
    """A document to make a new project of."""
    blocks = []
    for __ in range(g.r.choice([0, 0, 1])):
        blocks.append(para(g, False, False))
    for __ in range(g.r.randint(1, 4)):
        n = g.pick((1, 2, 2, 2))
        blocks.append({'k': f'h{n}', 's': f'Heading_20_{n}', 'r': [T(words(g))] if g.chance(0.8) else runs(g, True, False, 2) if g.chance(0.1) else [T(words(g) + ' '), T(words(g), fmt(g)), T(words(g))]})
        for j in range(g.r.choice([0, 1, 1, 2, 3])):
            if j > 0:
                r = g.pick([[T('* * *')], [T('* * *')], [T('* * *', fmt(g))], [T('* ', fmt(g)), T('* *')]])
                blocks.append({'k': 'h4', 's': 'Heading_20_4', 'r': r} if g.chance(0.6) else {'k': 'p', 's': 'Text_20_body', 'r': r})
            for i in range(g.r.choice([1, 1, 2, 4])):
                b = para(g)
                if i == 0:
                    b['r'] = [r for r in b['r'] if r['t'] != 'c']
                    if g.chance(0.2):
                        b['r'].insert(0, note(g))
                blocks.append(b)
            if g.chance(dividers):
                blocks.append(divider(g, (1, 2, 3)))
                blocks.append(para(g))
            if g.chance(0.05):
                blocks.append({'k': 'p', 's': 'Text_20_body', 'r': g.pick([[T('before * * * after')], [T('* * * after')], [T('* *')], [T('before '), T('* * *', fmt(g))]])})
    return blocks


def outline(g):
    blocks = []
    for __ in range(g.r.choice([0, 0, 1])):
        blocks.append(para(g, False, False))
    if g.chance(0.03):
        blocks.append({'k': 'h3', 's': 'Heading_20_3', 'r': [T('lost')]})
    for __ in range(g.r.randint(1, 4)):
        n = g.pick((1, 2, 2, 2))
        blocks.append({'k': f'h{n}', 's': f'Heading_20_{n}', 'r': [T(words(g))]})
        for j in range(g.r.choice([0, 0, 1, 3])):
            blocks.append(para(g, False, False))
        for j in range(g.r.choice([0, 1, 1, 2, 3])):
            blocks.append({'k': 'h3', 's': 'Heading_20_3', 'r': [T(words(g))]})
            for i in range(g.r.choice([0, 1, 1, 2, 4])):
                b = para(g, g.chance(0.3), False)
                b['r'] = [r for r in b['r'] if r['t'] == 't']
                blocks.append(b)
    if not any(b['k'] == 'h3' for b in blocks):
        blocks.append({'k': 'h3', 's': 'Heading_20_3', 'r': [T('S')]})
    return blocks


def meta(g):
    lang = g.pick(['en-US', 'de-DE', 'fr-CA', '', 'pt-none'])
    return {'title': clean(g.line()).strip() if g.chance(0.8) else '', 'author': clean(g.line()).strip() if g.chance(0.8) else '',
            'desc': clean(g.line()).strip() if g.chance(0.8) else '', 'lang': lang.partition('-')[0], 'country': lang.partition('-')[2]}


# ---------------------------------------------------------------- runs

def folder():
    wd = os.path.join(os.getcwd(), 'x')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.chdir(wd)
    return wd


def leave(wd):
    os.chdir('..')
    shutil.rmtree(wd, ignore_errors=True)


def project(g, make):
    return {'world': h_export.world, 'skeleton': h_export.skeleton, 'crowd': h_export.crowd, 'bulk': bulk}[make](g)


def untagged(x, langs):
    """No tags of languages that are not in use."""
    return re.sub(r'\[(/?lang=)([^\]]*)\]', lambda m: m.group(0) if m.group(2) in langs else f'({m.group(1)}{m.group(2)})', x)


def uncommented(x):
    """No comment marks that do not belong to a comment."""
    out = []
    for i, part in enumerate(re.split(r'/\*(.*?)\*/', x, flags=re.S)):
        part = part.replace('/*', '-').replace('*/', '-')
        if i % 2:
            out.append('/*' + re.sub(r'^(\s*)/', r'\1-', part) + '*/')
        else:
            out.append(part)
    return ''.join(out)


def importable(x):
    """No line that would divide the scene, and no tags within what would be a comment mark without them."""
    x = re.sub(r'(?<=[*/])' + h_export.TAG + r'+(?=[*/])', '', x)
    return re.sub(r'^((?:\[[^\]\n]*\])*)#+', r'\1', x, flags=re.M)


def suited(d, kind, edited=False):
    """The project without texts that would have a special meaning in this kind of document."""
    d = dict(d, scs=[dict(s) for s in d['scs']], chs=[dict(c) for c in d['chs']])
    if kind == '_proof':
        d['prj'] = dict(d['prj'])
        for e in d['scs'] + d['chs'] + [d['prj']]:
            for f in ('title', 'content', 'desc', 'author'):
                if f in e:
                    e[f] = e[f].replace('ScID', 'SceneID')
    langs = [x for x in d['prj']['languages'] if x != proj.NULL] + re.findall(r'\[lang=([^\]]*)\]', ' '.join(s['content'] for s in d['scs']))
    for s in d['scs']:
        exported = s['typ'] != '3' if kind in ('_notes', '_todo') else s['typ'] in ('0', proj.NULL)
        if s['content'] != proj.NULL and exported and kind in FORMATTED:
            s['content'] = importable(s['content'])
            if edited:
                s['content'] = uncommented(untagged(s['content'], langs))
        if kind == '_scenes' and s['desc'].startswith('/*') and '~' in s['desc'].split('*/')[0]:
            s['desc'] = s['desc'].replace('~', '-')
    return d


def run_same(job):
    g = gen.Gen(job['seed'])
    wd = folder()
    d = job.get('novel') or project(g, job['make'])
    ev = []
    for kind in job['kinds'] or [g.pick(KINDS) for __ in range(3)]:
        write_new('p.yw7', suited(d, kind))
        ev.append(same_event(kind, 'p'))
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def run_chain(job):
    """Several kinds of documents of one project, one after the other."""
    g = gen.Gen(job['seed'])
    wd = folder()
    d = project(g, job['make'])
    kinds = g.r.sample(KINDS, g.r.randint(2, 6))
    for kind in kinds:
        d = suited(d, kind)
    write_new('p.yw7', d)
    ev = []
    for kind in kinds:
        e = same_event(kind, 'p')
        ev.append(e)
        if e['out'] != 'ok' or e['again']:
            break
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def bulk(g, n=None):
    """A project whose documents are so long that they are read in several pieces."""
    d = h_export.texts_project(g, [sane_words(g) for __ in range(n or g.r.randint(250, 350))])
    for s in d['scs']:
        s['desc'] = words(g, 2)
        s['title'] = words(g, 1)
    return d


def sane_words(g):
    x = words(g, g.r.randint(1, 6))
    return g.pick([x, x, f'[i]{x}[/i]', f'{x} & {x}', f'{x}\n{x}', f'{x} /*{x}*/'])


def reorganised(g, d):
    """The project after the author has gone on working with it: things are gone, new, or elsewhere."""
    d = dict(d, scs=[dict(s) for s in d['scs']], chs=[dict(c, scs=list(c['scs'])) for c in d['chs']], crs=list(d['crs']), lcs=list(d['lcs']), its=list(d['its']))
    for __ in range(g.r.choice([1, 1, 2, 3])):
        k = g.r.random()
        full = [c for c in d['chs'] if c['scs']]
        if k < 0.3 and full:
            g.pick(full)['scs'].pop()
        elif k < 0.5 and full:
            c = g.pick(full)
            i = c['scs'].pop(g.r.randrange(len(c['scs'])))
            o = g.pick(d['chs'])
            o['scs'].insert(g.r.randint(0, len(o['scs'])), i)
        elif k < 0.65 and len(d['chs']) > 1:
            d['chs'].remove(g.pick(d['chs']))
        elif k < 0.75:
            g.r.shuffle(d['chs'])
        else:
            for f in ('crs', 'lcs', 'its'):
                if d[f] and g.chance(0.6):
                    d[f].remove(g.pick(d[f]))
    listed = {i for c in d['chs'] for i in c['scs']}
    d['scs'] = [s for s in d['scs'] if s['id'] in listed]
    for s in d['scs']:
        for f, k in (('chars', 'crs'), ('locs', 'lcs'), ('items', 'its')):
            s[f] = [i for i in s[f] if i == proj.NULL or i in {e['id'] for e in d[k]}]
    return d


def run_edited(job):
    """A document is exported, edited, and written back."""
    g = gen.Gen(job['seed'])
    wd = folder()
    d = project(g, job['make'])
    ev = []
    for kind in job['kinds'] or [g.pick(KINDS) for __ in range(2)]:
        write_new('p.yw7', suited(d, kind, True))
        doc = os.path.abspath(f'p{kind}{ext(kind)}')
        out, msg, ui = convert(os.path.abspath('p.yw7'), suffix=kind)
        v = None
        if out == 'ok':
            try:
                v = read_doc(doc)
            except Exception as ex:
                out, msg = 'unreadable', f'{type(ex).__name__}: {ex}'
        if out != 'ok':
            ev.append({'ev': 'import', 'kind': kind, 'before': proj.file_tree('p.yw7'), 'after': proj.NO_TREE, 'out': 'export ' + out, 'msg': msg, 'told': 'F',
                       'again': '', **EMPTY_DOC})
            continue
        if kind in SHEETS:
            h_write.write_ods(doc, edit_sheet(g, kind, v['rows']), v['meta'], g.r if g.chance(0.9) else None)
        else:
            h_write.write_odt(doc, edit_doc(g, kind, v['blocks'], job.get('dividers', 0.0)), v['meta'], g.r if g.chance(0.9) else None)
        if job.get('reorganise'):
            write_new('p.yw7', reorganised(g, suited(d, kind, True)))
        ev.append(import_event(kind, doc, os.path.abspath('p.yw7'), read_doc(doc)))
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def run_new(job):
    """A project is made from a document."""
    g = gen.Gen(job['seed'])
    wd = folder()
    make = {'work': lambda: work(g, job.get('dividers', 0.05)), 'outline': lambda: outline(g)}[job['make']]
    doc = os.path.abspath('n.odt')
    blocks = make()
    about = meta(g)
    drop = ()
    if g.chance(0.06):
        about, drop = dict(about, title='', author='', desc=''), ('meta.xml',)
    h_write.write_odt(doc, blocks, about, g.r if g.chance(0.9) else None, drop=drop)
    ev = [import_event('', doc, os.path.abspath('n.yw7'), read_doc(doc))]
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def judge(chk, traces, mine=('',), chunk=300):
    import yw7_common as yc
    for t in traces[:2]:
        if 'ev' in t:
            e = t['ev'][0]
            chk.sample({'seed': t['seed'], 'kind': e['kind'], 'event': e['ev'], 'blocks': e.get('blocks', [])[:12], 'out': e['out']})
    chk.count(documents=sum(len(t.get('ev', ())) for t in traces))
    yc.run_traces(chk, traces, mine, module='JudgeImport', chunk=chunk)
    return traces


def run(chk, n, fn, make, kinds=None, offset=0, mine=('',), chunk=300, **kw):
    """Record and judge n imports."""
    jobs = [dict({'seed': chk.seed * 1000003 + offset + i, 'make': make, 'kinds': kinds}, **kw) for i in range(n)]
    return judge(chk, pw.elsewhere(fn, jobs[:n // 8]) + pw.parallel(fn, jobs[n // 8:]), mine, chunk)


def replay(chk, fn, module, cfg, mine=('',), limit=None, chunk=25, **kw):
    """Replay the cases enumerated by a model."""
    cases = h_export.model_cases(chk, module, cfg, lines=False)
    random.Random(chk.seed).shuffle(cases)
    cases = cases[:limit]
    chk.count(model_cases_replayed=len(cases))
    jobs = [dict({'seed': chk.seed * 1000 + lo, 'cases': cases[lo:lo + 20]}, **kw) for lo in range(0, len(cases), 20)]
    return judge(chk, pw.parallel(fn, jobs), mine, chunk)


# ---------------------------------------------------------------- enumerated cases

def novel3():
    """Two chapters, three scenes: the project of MC_Split."""
    d = gen.project(gen.Gen(1), 0, 0.0, h_export.plain)
    d['prj'].update({'title': 'N', 'author': 'A'})
    for n, (i, desc) in enumerate((('2', proj.NULL), ('3', 'D'), ('4', proj.NULL)), 1):
        s = gen.scene(gen.Gen(1), i, [], [], [], 0, h_export.plain)
        s.update({'title': f'T{n}', 'desc': desc, 'content': f'old {n}', 'status': i, 'typ': '0', 'dne': 'F', 'app': 'F'})
        d['scs'].append(s)
    for i, title, ids in (('3', 'A', ['2', '3']), ('1', 'B', ['4'])):
        c = gen.chapter(gen.Gen(1), i, ids, 0, h_export.plain)
        c.update({'title': title, 'lev': '0', 'typ': '0', 'supT': 'F', 'supB': 'F', 'trash': 'F'})
        d['chs'].append(c)
    return d


def line_block(g, x):
    """A line of text as a paragraph, or as a heading if it is one."""
    for n in (2, 1):
        if x.startswith('#' * n + ' ') and g.chance(0.5):
            return {'k': f'h{n}', 's': f'Heading_20_{n}', 'r': [T(x[n + 1:])]}
    return {'k': 'p', 's': g.pick(['Text_20_body', 'First_20_line_20_indent']), 'r': [T(x)] if x else []}


def run_lines(job):
    """Write documents with given lines back to the project of three scenes."""
    g = gen.Gen(job['seed'])
    wd = folder()
    write_new('q.yw7', novel3())
    ev = []
    for case in job['cases']:
        kind = g.pick(FORMATTED[:1] * 3 + ['_proof'])
        shutil.copy('q.yw7', 'p.yw7')
        blocks = []
        ids = iter(('2', '3', '4'))
        texts = iter(case)
        for ch, n in (('3', 2), ('1', 1)):
            if kind != '_proof':
                blocks.append({'k': 'sec', 's': f'ChID:{ch}', 'r': []})
            blocks.append({'k': 'h2', 's': 'Heading_20_2', 'r': [T('Ch')]})
            for __ in range(n):
                sc = next(ids)
                if kind == '_proof':
                    blocks.append({'k': 'p', 's': 'scene_20_mark', 'r': [T(f'[ScID:{sc}]')]})
                else:
                    blocks.append({'k': 'sec', 's': f'ScID:{sc}', 'r': []})
                blocks += [line_block(g, x) for x in next(texts)]
                if kind == '_proof':
                    blocks.append({'k': 'p', 's': 'scene_20_mark', 'r': [T('[/ScID]')]})
                else:
                    blocks.append({'k': 'end', 's': '', 'r': []})
            if kind != '_proof':
                blocks.append({'k': 'end', 's': '', 'r': []})
        doc = os.path.abspath(f'p{kind}.odt')
        h_write.write_odt(doc, blocks, {'title': 'N', 'author': 'A', 'desc': '', 'lang': 'en', 'country': 'US'}, g.r if g.chance(0.3) else None)
        ev.append(import_event(kind, doc, os.path.abspath('p.yw7'), read_doc(doc)))
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def run_blocks(job):
    """Make new projects from given documents."""
    g = gen.Gen(job['seed'])
    wd = folder()
    ev = []
    for n, blocks in enumerate(job['cases']):
        doc = os.path.abspath(f'n{n}.odt')
        h_write.write_odt(doc, blocks, {'title': 'N', 'author': 'A', 'desc': '', 'lang': 'en', 'country': 'US'}, g.r if g.chance(0.3) else None)
        ev.append(import_event('', doc, os.path.abspath(f'n{n}.yw7'), read_doc(doc)))
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def run_sections(job):
    """Write given documents with sections back to the project of three scenes."""
    g = gen.Gen(job['seed'])
    wd = folder()
    write_new('q.yw7', novel3())
    ev = []
    for n, blocks in enumerate(job['cases']):
        kinds = ['_manuscript', '_manuscript', '_notes', '_todo', '_scenes']
        if not any(b['s'].startswith('ScID') for b in blocks):
            # documents with descriptions of chapters hold no scenes
            kinds += ['_chapters', '_parts'] * 2
        kind = job.get('kind') or g.pick(kinds)
        shutil.copy('q.yw7', 'p.yw7')
        doc = os.path.abspath(f'p{kind}.odt')
        h_write.write_odt(doc, blocks, {'title': 'N', 'author': 'A', 'desc': '', 'lang': 'en', 'country': 'US'}, g.r if g.chance(0.3) else None)
        ev.append(import_event(kind, doc, os.path.abspath('p.yw7'), read_doc(doc)))
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def run_rows(job):
    """Write given spreadsheets back to the project of MC_Sheet."""
    g = gen.Gen(job['seed'])
    wd = folder()
    ev = []
    for n, d in enumerate(job['novels']):
        write_new(f'q{n}.yw7', d)
    for case in job['cases']:
        kind = case['kind']
        shutil.copy(f'q{case["bare"]}.yw7', 'p.yw7')
        doc = os.path.abspath(f'p{kind}.ods')
        rows = [[cell(x) for x in r] for r in case['rows']]
        h_write.write_ods(doc, rows, {'title': 'N', 'author': 'A', 'desc': '', 'lang': 'en', 'country': 'US'}, g.r if g.chance(0.3) else None)
        ev.append(import_event(kind, doc, os.path.abspath('p.yw7'), read_doc(doc)))
    leave(wd)
    return {'seed': job['seed'], 'ev': ev}


def replay_rows(chk, limit, mine):
    cases = h_export.model_cases(chk, 'MC_Sheet', None, lines=False)
    novels, cases = cases[0]['novels'], cases[1:]
    random.Random(chk.seed).shuffle(cases)
    cases = cases[:limit]
    chk.count(model_cases_replayed=len(cases))
    jobs = [{'seed': chk.seed * 1000 + lo, 'cases': cases[lo:lo + 20], 'novels': novels} for lo in range(0, len(cases), 20)]
    return judge(chk, pw.parallel(run_rows, jobs), mine, 25)
