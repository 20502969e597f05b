"""Recorded histories of projects whose application declares custom fields of its own."""
import os

import gen
import h_yw7
import proj
import pw

SECTS = {'prj': 'PRJ_KWVAR', 'chs': 'CHP_KWVAR', 'scs': 'SCN_KWVAR', 'crs': 'CRT_KWVAR', 'lcs': 'LOC_KWVAR', 'its': 'ITM_KWVAR', 'pns': 'PNT_KWVAR'}
TAGS = {'chs': 'CHAPTERS', 'scs': 'SCENES', 'crs': 'CHARACTERS', 'lcs': 'LOCATIONS', 'its': 'ITEMS', 'pns': 'PROJECTNOTES', 'prj': 'PROJECT'}
NAMES = ['Field_A', 'Field_B', 'Field_WorkPhase', 'Field_ÄrgerÉ', 'Field_Q', 'x-1.y', 'Field_SceneMood', 'Field_Linked', 'Field_SceneStyles', 'Zed']


def declared(decl):
    """A project file class that declares these names besides its own."""
    from pywriter.yw.yw7_file import Yw7File
    return type('AppFile', (Yw7File,), {c: list(getattr(Yw7File, c)) + list(decl[s]) for s, c in SECTS.items()})


def elements(novel):
    return {'prj': [('', novel)], 'chs': [(i, novel.chapters[i]) for i in novel.srtChapters], 'scs': list(novel.scenes.items()),
            'crs': [(i, novel.characters[i]) for i in novel.srtCharacters], 'lcs': [(i, novel.locations[i]) for i in novel.srtLocations],
            'its': [(i, novel.items[i]) for i in novel.srtItems], 'pns': [(i, novel.projectNotes[i]) for i in novel.srtPrjNotes]}


class Session:

    def __init__(self, g, path, decl):
        self.g, self.path, self.decl, self.ev = g, path, decl, []
        self.cls = declared(decl)
        self.file = None

    def names(self, s):
        return getattr(self.cls, SECTS[s])

    def kw(self):
        return {s: [{'id': i, 'v': {f: proj.v(e.kwVar.get(f)) for f in self.names(s)}} for i, e in es]
                for s, es in elements(self.file.novel).items()}

    def log(self, ev, out='ok', msg='', **kw):
        self.ev.append(dict({'ev': ev, 'out': out, 'msg': str(msg or ''), 'novel': proj.novel(self.file.novel), 'kw': self.kw()}, **kw))
        return out == 'ok'

    def load(self):
        from pywriter.model.novel import Novel
        with open(self.path, 'rb') as f:
            data = f.read()
        self.file = self.cls(self.path)
        self.file.novel = Novel()
        out, msg = pw.outcome(self.file.read)
        return self.log('load', out, msg, tree=h_yw7.file_tree_text(data))

    def new(self, d, kw):
        self.file = self.cls(self.path)
        self.file.novel = proj.make_novel(d)
        self.put(kw)
        self.log('new')

    def put(self, kw):
        for s, es in elements(self.file.novel).items():
            for i, e in es:
                for f, x in kw.get((s, i), {}).items():
                    e.kwVar[f] = proj.un(x)

    def edit(self, d, kw):
        if d is not None:
            notes = {i: e.kwVar for i, e in self.file.novel.projectNotes.items()}
            proj.fill_novel(d, self.file.novel)
            for i, e in self.file.novel.projectNotes.items():
                e.kwVar.update(notes.get(i, {}))
        self.put(kw)
        self.log('edit')

    def save(self):
        out, msg = pw.outcome(self.file.write)
        tree = proj.NO_TREE
        if out == 'ok':
            try:
                tree = proj.file_tree(self.path)
            except Exception as ex:
                out, msg = f'unreadable: {type(ex).__name__}', ex
        return self.log('save', out, msg, tree=tree)

    def reset(self):
        from pywriter.yw import yw7_purge
        out, ret = pw.outcome(yw7_purge.reset_custom_variables, self.file)
        return self.log('reset', out, '' if out == 'ok' else ret, ret=proj.v(bool(ret)))

    def cleared(self):
        self.log('cleared')

    def trace(self, seed):
        return {'seed': seed, 'ev': self.ev, 'last': {'decl': self.decl}}


def case(g, path, c, sect):
    """A model case: one element with a prior state under a sequence of operations."""
    E = gen.E
    kid = E('ID', '1')

    def elem(tag, *kids):
        fields = [conv(p) for p in c['prior']] if tag == TAGSING[sect] else []
        return E(tag, None, *([kid] if tag != 'PROJECT' else []), *kids, *fields)

    def conv(p):
        return E(p['g'], None if p['x'] == proj.NULL else p['x'], *[conv(k) for k in p['k']])

    T = lambda t: E('Title', t)
    root = E('YWRITER7', None, elem('PROJECT', E('Ver', '7'), T('P')), E('LOCATIONS', None, elem('LOCATION', T('L'))), E('ITEMS', None, elem('ITEM', T('I'))),
             E('CHARACTERS', None, elem('CHARACTER', T('C'))), E('PROJECTNOTES', None, elem('PROJECTNOTE', T('N'))),
             E('SCENES', None, elem('SCENE', T('S'), E('SceneContent', 'x'))), E('CHAPTERS', None, elem('CHAPTER', T('K'), E('Scenes', None, E('ScID', '1')))))
    with open(path, 'wb') as f:
        f.write(gen.xml_text(g, root))
    s = Session(g, path, {k: ['Field_A', 'Field_B'] for k in SECTS})
    ok = s.load()
    for o in c['ops']:
        if not ok:
            break
        if o[0] == 'set':
            s.edit(None, {(sect, '' if sect == 'prj' else '1'): {o[1]: o[2]}})
        else:
            ok = getattr(s, o[0])()
    ok = ok and s.save()
    if ok and c['ops'][-1][0] == 'reset':
        s.cleared()
    ok and s.load()
    return s


TAGSING = {'prj': 'PROJECT', 'chs': 'CHAPTER', 'scs': 'SCENE', 'crs': 'CHARACTER', 'lcs': 'LOCATION', 'its': 'ITEM', 'pns': 'PROJECTNOTE'}


def history(g, path):
    decl = {s: g.r.sample(NAMES, g.r.randint(0, 3)) for s in SECTS}
    s = Session(g, path, decl)

    def values():
        kw = {}
        for k, es in elements(s.file.novel).items():
            for i, e in es:
                for f in decl[k]:
                    if g.chance(0.5):
                        kw[k, i] = kw.get((k, i), {})
                        kw[k, i][f] = g.pick(['', proj.NULL, '0', g.text(), g.line(), g.text()])
        return kw

    def inject(root):
        for part in root[2]:
            for k, t in TAGS.items():
                if part[0] != t:
                    continue
                for e in [part] if k == 'prj' else part[2]:
                    if g.chance(0.5) and (k == 'prj' or any(x[0] == 'ID' for x in e[2])):
                        fs = [x for x in e[2] if x[0] == 'Fields']
                        if not fs:
                            fs = [gen.E('Fields', None)]
                            e[2].append(fs[0])
                        for n in g.r.sample(NAMES, g.r.randint(0, 4)):
                            if not any(x[0] == n for x in fs[0][2]):
                                fs[0][2].insert(g.r.randint(0, len(fs[0][2])), gen.E(n, g.pick(['', g.text(), g.line(), '1'])))
            if part[0] == 'PROJECTNOTES' and g.chance(0.3):
                part[2].insert(g.r.randint(0, len(part[2])), gen.E('PROJECTNOTE', None, gen.E('Title', g.line()), gen.E('Fields', None, gen.E(g.pick(NAMES), '1'))))
        return root

    ok = True
    if g.chance(0.4):
        s.new(gen.project(g, g.pick([1, 2, 3])), {})
        s.edit(None, values())
        ok = s.save()
    else:
        with open(path, 'wb') as f:
            f.write(gen.xml_text(g, inject(gen.xml_project(g, g.pick([1, 2, 3])))))
    for __ in range(g.r.randint(1, 3)):
        if not ok:
            break
        if s.file is None or g.chance(0.6):
            ok = s.load()
        if ok and g.chance(0.7):
            s.edit(gen.edit(g, proj.novel(s.file.novel)) if g.chance(0.5) else None, values())
        done = False
        if ok and g.chance(0.35):
            ok = s.reset()
            done = True
            if ok and g.chance(0.2):
                ok = s.reset()
        ok = ok and s.save()
        if ok and done:
            s.cleared()
    ok and s.load() and s.save()
    return s


def run(job):
    g = gen.Gen(job['seed'])
    out = []
    for k, c in enumerate(job['cases']):
        path = os.path.join(os.getcwd(), f'c{job["seed"]}_{k}.yw7')
        s = case(g, path, *c) if c else history(g, path)
        out.append(s.trace(job['seed']))
        for p in (path, path + '.bak'):
            if os.path.exists(p):
                os.remove(p)
    return {'seed': job['seed'], 'all': out}
