"""Recorded template-based exports: an application with templates and filters of its own."""
import os
import shutil
from urllib.parse import quote

import gen
import h_export
import proj
import pw

ATTR = {'header': '_fileHeader', 'divider': '_sceneDivider', 'footer': '_fileFooter', 'characterSection': '_characterSectionHeading',
        'locationSection': '_locationSectionHeading', 'itemSection': '_itemSectionHeading'}
RAW = ['divider', 'characterSection', 'locationSection', 'itemSection', 'footer']
CHAPTER = ['part', 'chapter', 'notesPart', 'todoPart', 'notesChapter', 'todoChapter', 'unusedChapter', 'notExportedChapter', 'chapterEnd',
           'unusedChapterEnd', 'notExportedChapterEnd', 'notesChapterEnd', 'todoChapterEnd']
SCENE = ['scene', 'firstScene', 'appendedScene', 'notesScene', 'todoScene', 'unusedScene', 'notExportedScene']
ALL = ['header'] + CHAPTER + SCENE + ['character', 'location', 'item', 'projectNote'] + RAW

PRJ = ['Title', 'Desc', 'AuthorName', 'AuthorBio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Language', 'Country']
CH = ['ID', 'ChapterNumber', 'Title', 'Desc', 'Language', 'Country', 'ProjectName', 'ProjectPath']
SC = ['ID', 'SceneNumber', 'Title', 'Desc', 'WordCount', 'WordsTotal', 'LetterCount', 'LettersTotal', 'Status', 'SceneContent', 'FieldTitle1',
      'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Field1', 'Field2', 'Field3', 'Field4', 'Date', 'Time', 'Day', 'ScDate', 'LastsDays',
      'LastsHours', 'LastsMinutes', 'Duration', 'ReactionScene', 'Goal', 'Conflict', 'Outcome', 'Tags', 'Image', 'Characters', 'Viewpoint',
      'Locations', 'Items', 'Notes', 'Language', 'Country', 'ProjectName', 'ProjectPath']
PL = ['ID', 'Title', 'AKA', 'Desc', 'Tags', 'Image', 'ProjectName', 'ProjectPath']
CR = PL + ['FullName', 'Status', 'Bio', 'Goals', 'Notes']
PN = ['ID', 'Title', 'Desc', 'ProjectName', 'ProjectPath']
LITS = ['\n', ' ', ': ', '<h1>', '</h1>\n', 'a$ b', '{', '}', '${', '$1', '${ID', '% {x} %s', '\\', '\n\n', '—', 'é', "'\"", '#', '$-', 'x']


def attr(name):
    return ATTR.get(name, f'_{name}Template')


def lit(x):
    return {'t': 'lit', 'x': x, 'r': x}


def template(g, names, mark, n=None):
    """A template that is never empty: a mark, placeholders and plain text."""
    parts = [lit(f'({mark} ')]
    for __ in range(n if n is not None else g.r.choice([0, 1, 3, 6, 12, 25])):
        k = g.r.random()
        if k < 0.7:
            x = g.pick(names)
        elif k < 0.75:
            # not known here
            x = g.pick(['Foo', 'id', 'TITLE', 'Title2', 'SceneNumber', 'Bio', 'Content', '_x'])
        elif k < 0.78:
            parts.append({'t': 'esc', 'x': '$', 'r': '$$'})
            parts.append(lit(g.pick(['ID ', '{ID} ', ' '])))
            continue
        else:
            parts.append(lit(g.pick(LITS) + ' '))
            continue
        if g.chance(0.5):
            parts.append({'t': 'ph', 'x': x, 'r': '${%s}' % x})
        else:
            parts.append({'t': 'ph', 'x': x, 'r': f'${x}'})
            parts.append(lit(g.pick(['|', ' ', '\n', '-', '.', 'é', '$ '])))
    return parts + [lit(')')]


NAMES = {**{n: CH for n in CHAPTER}, **{n: SC for n in SCENE}, 'header': PRJ, 'character': CR, 'location': PL, 'item': PL, 'projectNote': PN}


def templates(g):
    p = g.pick([0.3, 0.7, 1])
    tp = {}
    for n in ALL:
        if not g.chance(p):
            tp[n] = []
        elif n in RAW:
            tp[n] = [lit(f'({n}' + g.pick(['', ' $ID', ' ${Title}', '\n', ' $$']) + ')')]
        else:
            tp[n] = template(g, NAMES[n], n)
    return tp


def text_of(parts):
    return ''.join(p['r'] for p in parts)


def exporter(tp, keep, suffix, ext):
    """The application's own document class."""
    from pywriter.file.file_export import FileExport
    from pywriter.file.filter import Filter

    class Only(Filter):

        def __init__(self, ids):
            self.ids = ids

        def accept(self, source, eId):
            return eId in self.ids

    d = {attr(n): text_of(parts) for n, parts in tp.items()}
    d.update({'DESCRIPTION': 'x', 'EXTENSION': ext, 'SUFFIX': suffix})
    cls = type('AppExport', (FileExport,), d)

    def make(path):
        f = cls(path)
        if keep is not None:
            f._chapterFilter, f._sceneFilter = Only(keep['chs']), Only(keep['scs'])
            f._characterFilter, f._locationFilter, f._itemFilter = Only(keep['crs']), Only(keep['lcs']), Only(keep['its'])
        return f

    return make


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read().decode('utf-8')
    except (OSError, UnicodeDecodeError):
        return proj.NULL


def export(g, d, tp, keep, fault=None, name='p'):
    """Export the project d once; -> event"""
    suffix, ext = g.pick(['', '_list', '_x y']), g.pick(['.html', '.txt', '.md', '.csv'])
    wd = os.getcwd()
    path = os.path.join(wd, f'{name}{suffix}{ext}')
    bak = f'{path}.bak'
    for p in (path, bak):
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.remove(p)
    before = proj.NULL
    if g.chance(0.5):
        before = g.pick(['old', '', 'ä\nö'])
        with open(path, 'w', encoding='utf-8') as f:
            f.write(before)
        if g.chance(0.3):
            with open(bak, 'w', encoding='utf-8') as f:
                f.write('older')
    filtered = keep is not None
    ids = {k: [e['id'] for e in d[k]] for k in ('chs', 'scs', 'crs', 'lcs', 'its')}
    keep = keep or ids
    novel = proj.make_novel(d)
    want = proj.novel(novel)
    f = exporter(tp, keep if filtered else None, suffix, ext)(path)
    f.novel = novel
    possible = 'T'
    if fault == 'dir':
        # a folder is in the way of the document
        if before != proj.NULL:
            os.remove(path)
            before = proj.NULL
        os.mkdir(path)
        possible = 'F'
    elif fault == 'bak' and before != proj.NULL:
        # a folder is in the way of the backup
        if os.path.exists(bak):
            os.remove(bak)
        os.mkdir(bak)
        with open(os.path.join(bak, 'x'), 'w') as h:
            h.write('x')
        possible = 'F'
    elif fault == 'code':
        # a character that cannot be written
        novel.title = '\ud800'
        f._fileHeader = '$Title'
        possible = 'F'
    out, msg = pw.outcome(f.write)
    if fault == 'code':
        novel.title = proj.un(d['prj']['title'])
    e = {'ev': 'export', 'out': out, 'msg': str(msg or ''), 'possible': possible, 'novel': want, 'tp': tp, 'keep': keep,
         'f': {'name': quote(name), 'path': quote(os.path.realpath(wd), '/:')}, 'before': before,
         'text': read(path), 'bak': read(bak), 'after': proj.novel(novel)}
    return e


def some(g, ids):
    return g.r.sample(ids, g.r.randint(0, len(ids))) if g.chance(0.6) else ids


def prepare(g, d):
    for s in d['scs']:
        if s['date'] != proj.NULL and g.chance(0.15):
            s['date'] = '0001-01-01'
        for f in ('ld', 'lh', 'lm'):
            if g.chance(0.2):
                s[f] = g.pick(['0', '1', '12'])
    for k in ('crs', 'lcs', 'its'):
        for e in d[k]:
            if g.chance(0.1):
                e['title'] = proj.NULL
    return d


def run_export(job):
    """job: {'seed'} -> trace"""
    g = gen.Gen(job['seed'])
    wd = os.path.join(os.getcwd(), 'x')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.chdir(wd)
    name = g.pick(['p', 'p', 'My Novel', 'Ärger & Co', 'a+b', '50%', 'x#1'])
    d = prepare(g, {'world': h_export.world, 'skeleton': h_export.skeleton, 'crowd': h_export.crowd}[job['make']](g))
    ev = []
    for __ in range(2):
        keep = {k: some(g, [e['id'] for e in d[k]]) for k in ('chs', 'scs', 'crs', 'lcs', 'its')} if g.chance(0.4) else None
        ev.append(export(g, d, templates(g), keep, g.pick([None] * 9 + ['dir', 'bak', 'code']), name))
    os.chdir('..')
    shutil.rmtree(wd, ignore_errors=True)
    return {'seed': job['seed'], 'ev': ev}


def run_totals(job):
    """Counts and totals, and little else."""
    g = gen.Gen(job['seed'])
    wd = os.path.join(os.getcwd(), 'x')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.chdir(wd)
    d = prepare(g, h_export.world(g))
    tp = {n: [] for n in ALL}
    for n in ['scene'] + [n for n in SCENE[1:] if g.chance(0.5)]:
        tp[n] = [lit(f'({n} ')] + [x for k in ('ID', 'WordCount', 'WordsTotal', 'LetterCount', 'LettersTotal') for x in ({'t': 'ph', 'x': k, 'r': '$' + k}, lit(' '))] + [lit(')')]
    for n in CHAPTER:
        if g.chance(0.3):
            tp[n] = [lit(f'({n})')]
    keep = {k: some(g, [e['id'] for e in d[k]]) for k in ('chs', 'scs', 'crs', 'lcs', 'its')} if g.chance(0.3) else None
    ev = [export(g, d, tp, keep)]
    os.chdir('..')
    shutil.rmtree(wd, ignore_errors=True)
    return {'seed': job['seed'], 'ev': ev}


def totals(chk, n, mine):
    return judge(chk, pw.parallel(run_totals, [{'seed': chk.seed * 1000003 + 900000 + i} for i in range(n)]), mine)


def run_case(job):
    """job: {'seed', 'case': a case of MC_Template} -> trace"""
    g = gen.Gen(job['seed'])
    c = job['case']
    d = h_export.packed(g, [c['ch'], {'lev': '0', 'typ': '0', 'scs': [{'typ': '0', 'dne': 'F', 'app': 'F', 'code': ''}]}])
    tp = {}
    for n in ALL:
        if n in ('part', 'todoScene', 'notesScene', 'unusedScene', 'notExportedScene', 'firstScene', 'appendedScene') and n not in c['defined']:
            tp[n] = []
        elif n in RAW:
            tp[n] = [lit(f'<{n}>')]
        else:
            tp[n] = template(g, NAMES[n], n, 0) + [{'t': 'ph', 'x': x, 'r': '${%s}' % x} for x in NAMES[n]
                                                   if x in ('ID', 'ChapterNumber', 'SceneNumber', 'WordsTotal', 'LettersTotal')]
    scs = [e['id'] for e in d['scs']]
    keep = {'chs': ['1', '2'], 'scs': [i for i in scs if int(i) not in c['drop']], 'crs': [], 'lcs': [], 'its': []}
    return {'seed': job['seed'], 'case': c, 'ev': [export(g, d, tp, keep)]}


def run(chk, n, mine):
    makes = ['world', 'skeleton', 'crowd']
    jobs = [{'seed': chk.seed * 1000003 + i, 'make': makes[i % 3]} for i in range(n)]
    return judge(chk, pw.parallel(run_export, jobs), mine)


def replay(chk, cfg, mine, limit=None):
    cases = h_export.model_cases(chk, 'MC_Template', cfg)
    g = gen.Gen(chk.seed)
    g.r.shuffle(cases)
    chk.count(model_cases=len(cases))
    cases = cases[:limit]
    chk.count(model_cases_replayed=len(cases))
    return judge(chk, pw.parallel(run_case, [{'seed': chk.seed * 1000003 + 500000 + i, 'case': c} for i, c in enumerate(cases)]), mine)


def judge(chk, traces, mine):
    import yw7_common as yc
    for t in traces[:2]:
        if 'ev' in t:
            e = t['ev'][0]
            chk.sample({'seed': t['seed'], 'text': e['text'][:600], 'templates': {k: text_of(p) for k, p in e['tp'].items() if p}})
    chk.count(exports=sum(len(t.get('ev', ())) for t in traces))
    yc.run_traces(chk, traces, mine, module='JudgeTemplate')
    return traces
