"""Recorded project histories: load, edit, and save real project files."""
import hashlib
import os
import re

import gen
import proj
import pw


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def file_tree_text(data):
    """The element tree of a project file's bytes, parsed independently of the code under test."""
    import xml.etree.ElementTree as ET
    for enc in ('utf-8', 'utf-16'):
        try:
            text = data.decode(enc)
            break
        except UnicodeDecodeError:
            continue
    return proj.tree(ET.fromstring(text))


def form(data):
    """How the file is written down, apart from what it says: header, CDATA sections, self-closed elements."""
    import xml.parsers.expat
    text = data.decode('utf-8')
    outside, inside, stack, cd = set(), set(), [], [False]
    p = xml.parsers.expat.ParserCreate()

    def start(name, attrs):
        stack.append((name, bool(attrs)))

    def chars(s):
        if s.strip() and stack and not stack[-1][1]:
            (inside if cd[0] else outside).add(stack[-1][0])

    def cdata(on):
        cd[0] = on
    p.StartElementHandler = start
    p.EndElementHandler = lambda name: stack.pop()
    p.CharacterDataHandler = chars
    p.StartCdataSectionHandler = lambda: cdata(True)
    p.EndCdataSectionHandler = lambda: cdata(False)
    p.Parse(data, True)
    bare = re.sub(r'<!\[CDATA\[.*?\]\]>', '', text, flags=re.DOTALL)
    return {'head': text.split('\n', 1)[0], 'outside': sorted(outside), 'inside': sorted(inside),
            'closed': sorted(set(re.findall(r'<(\w+)\s*/>', bare)))}


class History:
    """One project file on disk, one File object in memory; every step is logged."""

    def __init__(self, path):
        self.path = path
        self.ev = []
        self.file = None
        self.raw = []

    def load(self, again=False):
        """Read the file with a new object; or again with the object that has read or written it."""
        from pywriter.yw.yw7_file import Yw7File
        from pywriter.model.novel import Novel
        with open(self.path, 'rb') as f:
            data = f.read()
        if not again:
            self.file = Yw7File(self.path)
            self.file.novel = Novel()
        kind, msg = pw.outcome(self.file.read)
        e = {'ev': 'load', 'out': kind, 'msg': msg or '', 'tree': file_tree_text(data)}
        e['novel'] = proj.novel(self.file.novel) if kind == 'ok' else {}
        self.ev.append(e)
        return kind == 'ok'

    def new(self, d):
        from pywriter.yw.yw7_file import Yw7File
        self.file = Yw7File(self.path)
        self.file.novel = proj.make_novel(d)
        self.ev.append({'ev': 'new', 'novel': d})

    def edit(self, d):
        proj.fill_novel(d, self.file.novel)
        self.ev.append({'ev': 'edit', 'novel': d})

    def save(self):
        kind, msg = pw.outcome(self.file.write)
        e = {'ev': 'save', 'out': kind, 'msg': msg or '', 'tree': proj.NO_TREE, 'hash': '', 'novel': proj.novel(self.file.novel)}
        if kind == 'ok':
            try:
                e['tree'] = proj.file_tree(self.path)
                e['hash'] = digest(self.path)
                with open(self.path, 'rb') as f:
                    e['form'] = form(f.read())
            except Exception as ex:
                e['out'] = f'unreadable: {type(ex).__name__}'
                e['msg'] = str(ex)
        self.ev.append(e)
        return e['out'] == 'ok'


def indented(g):
    """A text that may begin with white space."""
    s = g.text()
    return g.pick([' \n', '  ', '\n', '\n\n ', '\t', ' \n\n']) + s if g.chance(0.1) else s


def run_history(job):
    """job: {'seed', 'steps', 'size'} -> trace"""
    g = gen.Gen(job['seed'])
    path = os.path.join(os.getcwd(), f'p{job["seed"]}.yw7')
    h = History(path)
    ok = True
    if g.chance(job.get('new', 0.35)):
        h.new(gen.project(g, job.get('size'), text=lambda multi=True: indented(g) if multi else g.text(False)))
        ok = h.save()
    else:
        with open(path, 'wb') as f:
            f.write(gen.xml_text(g, gen.xml_project(g, job.get('size'))))
    steps = job.get('steps', 3)
    for i in range(steps):
        if not ok:
            break
        if h.file is None or g.chance(0.7):
            ok = h.load()
            if not ok:
                break
        if g.chance(0.6):
            h.edit(gen.edit(g, proj.novel(h.file.novel)))
        ok = h.save()
        if ok and g.chance(0.25):
            ok = h.load(again=True)
    for i in range(2):
        ok = ok and h.load() and h.save()
    if ok:
        h.load()
    for p in (path, path + '.bak'):
        if os.path.exists(p):
            os.remove(p)
    return {'seed': job['seed'], 'ev': h.ev}
