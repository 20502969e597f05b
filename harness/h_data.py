"""Recorded histories of a project and the data files made of it."""
import os
import shutil
import xml.etree.ElementTree as ET

import gen
import h_fault
import h_window
import h_yw7
import proj
import pw

NULL = proj.NULL
FILES = ['_Characters.xml', '_Locations.xml', '_Items.xml']
HEAD = '<?xml version="1.0" encoding="utf-8"?>'


def read(name):
    trees, head = [], 'T'
    for f in FILES:
        path = name + f
        if not os.path.exists(path):
            trees.append(proj.NO_TREE)
            continue
        with open(path, 'rb') as fh:
            data = fh.read()
        try:
            text = data.decode('utf-8')
            trees.append(proj.tree(ET.fromstring(text)))
            if text.lower().replace("'", '"').lstrip('\ufeff').splitlines()[:1] != [HEAD]:
                head = 'F'
        except (UnicodeDecodeError, ET.ParseError) as ex:
            trees.append({'g': f'unreadable: {type(ex).__name__}', 'x': NULL, 'k': []})
            head = 'F'
    return trees, head


class Session:

    def __init__(self, g, wd):
        from pywriter.yw.yw7_file import Yw7File
        self.g, self.wd, self.ev = g, wd, []
        base = g.pick(['p', 'p', 'a.b', 'p q', 'ü', 'p_data', 'x.yw7', 'p_Items', '1.0.', 'x.xml'])
        self.path = os.path.join(wd, f'{base}.yw7')
        self.file = Yw7File(self.path)
        self.name = os.path.join(wd, f'{base}_data')
        self.kept = None

    def log(self, **kw):
        trees, head = read(self.name)
        self.ev.append(dict({'ev': 'project', 'out': 'ok', 'msg': '', 'name': os.path.basename(self.name), 'trees': trees, 'head': head, 'hit': False, 'changed': [],
                             'novel': proj.novel(self.file.novel)}, **kw))

    def new(self, d):
        self.file.novel = proj.make_novel(d)
        self.log()

    def edit(self, d):
        proj.fill_novel(d, self.file.novel)
        self.log()

    def reload(self):
        """Save the project and read it again."""
        from pywriter.yw.yw7_file import Yw7File
        from pywriter.model.novel import Novel
        out, msg = pw.outcome(self.file.write)
        if out == 'ok':
            self.file = Yw7File(self.path)
            self.file.novel = Novel()
            out, msg = pw.outcome(self.file.read)
        self.kept = None
        self.log(out=out, msg=msg or '')
        return out == 'ok'

    def make(self, how, plan=None):
        from pywriter.yw.data_files import DataFiles
        if how == 'convert' and not self.reload():
            return False
        before = h_window.digests(self.wd)
        if how == 'convert':
            action = self.convert
        else:
            data = self.kept if how == 'same' and self.kept is not None else DataFiles(self.name + '.xml')
            if how == 'same':
                self.kept = data
            data.novel = self.file.novel
            action = data.write
        p = h_window.fault(plan, self.wd) if plan else None
        try:
            out, msg = pw.outcome(action)
        finally:
            if p:
                p.active = False
        after = h_window.digests(self.wd)
        if plan:
            self.kept = None
        self.log(ev='make', out=out, msg=str(msg or ''), hit=bool(p and p.hit), changed=sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x)))
        return out == 'ok' or p is not None

    def convert(self):
        from pywriter.converter.yw7_exporter import Yw7Exporter
        from pywriter.pywriter_globals import Error
        from pywriter.yw.data_files import DataFiles
        from pywriter.ui.ui import Ui
        DataFiles.SUFFIX = '_data'
        ui = Ui('')
        ui.ask_yes_no = lambda text: True
        ui.set_info_how = lambda message: setattr(ui, 'infoHowText', message)
        c = type('Exporter', (Yw7Exporter,), {'EXPORT_TARGET_CLASSES': Yw7Exporter.EXPORT_TARGET_CLASSES + [DataFiles]})()
        c.ui = ui
        c.run(self.path, suffix='_data')
        if c.newFile is None:
            raise Error(ui.infoHowText)


def wanted(world):
    """A project with these entries."""
    d = proj.novel(proj.make_novel({'prj': {k: NULL for k in ('title', 'desc', 'author', 'bio', 'f1', 'f2', 'f3', 'f4', 'wcs', 'wt', 'lang', 'country')} | {'languages': [NULL]},
                                    'crs': [], 'lcs': [], 'its': [], 'pns': [], 'chs': [], 'scs': []}))
    g = gen.Gen(7)
    blank = {'crs': gen.character(g, '1', 0), 'lcs': gen.element(g, '1', 0), 'its': gen.element(g, '1', 0)}
    for s in ('crs', 'lcs', 'its'):
        d[s] = [dict(blank[s], id=i, title=x, tags=[x, x + x]) for i, x in world[s]]
    return d


def edited(l, o):
    if o == 'drop':
        return [e for e in l if e[0] != '1']
    if o == 'front':
        return [e for e in l if e[0] == '2'] + [e for e in l if e[0] != '2']
    i = '1' if o == 'change' else '2'
    return [(i, 'B') if e[0] == i else e for e in l] if any(e[0] == i for e in l) else l + [(i, 'B')]


def case(g, s, steps):
    world = {'crs': [('1', 'A')], 'lcs': [], 'its': [('1', 'A'), ('2', 'A')]}
    s.new(wanted(world))
    for st in steps:
        if st['k'] == 'make':
            ok = s.make(st['o'], None if st['o'] != 'fail' else {'kind': 'fail', 'n': g.r.randint(1, 9), 'exc': g.pick(['os', 'perm'])})
            if not ok:
                break
        else:
            world[st['k']] = edited(world[st['k']], st['o'])
            s.edit(wanted(world))


def history(g, s):
    if g.chance(0.5):
        s.new(gen.project(g, g.pick([1, 2, 3, 5])))
    else:
        with open(s.path, 'wb') as f:
            f.write(gen.xml_text(g, gen.xml_project(g, g.pick([1, 2, 4]))))
        from pywriter.model.novel import Novel
        s.file.novel = Novel()
        out, msg = pw.outcome(s.file.read)
        s.log(out=out, msg=msg or '')
        if out != 'ok':
            return
    for __ in range(g.r.randint(2, 6)):
        k = g.r.randrange(4)
        if k == 0:
            s.edit(gen.edit(g, proj.novel(s.file.novel)))
        elif k == 1 and g.chance(0.5):
            if not s.reload():
                return
        else:
            plan = {'kind': 'fail', 'n': g.r.randint(1, 9), 'exc': g.pick(['os', 'perm'])} if g.chance(0.2) else None
            if not s.make(g.pick(['same', 'same', 'new', 'convert']), plan):
                return


def run(job):
    g = gen.Gen(job['seed'])
    old = os.getcwd()
    out = []
    for c in job['cases']:
        wd = os.path.join(old, 'd')
        os.makedirs(wd)
        os.chdir(wd)
        s = Session(g, wd)
        case(g, s, c) if c else history(g, s)
        out.append({'seed': job['seed'], 'ev': s.ev})
        os.chdir(old)
        shutil.rmtree(wd)
    return {'seed': job['seed'], 'all': out}
