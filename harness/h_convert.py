"""Recorded conversions: real converters in scratch folders, every file before and after."""
import builtins
import contextlib
import hashlib
import io
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET
import zipfile

import gen
import h_export
import h_fault
import h_import
import h_write
import proj
import tkstub
import pw
from checks.c04 import novel, write_new

STYLE = 'urn:oasis:names:tc:opendocument:xmlns:office:1.0'
DEFECTS = ['empty', 'garbage', 'truncated', 'part']


def classify(path):
    """What a file is, judged without the code under test."""
    if os.path.isdir(path):
        return 'dir'
    try:
        with zipfile.ZipFile(path) as z:
            if z.testzip() is not None:
                return 'bad'
            content = z.read('content.xml')
            root = ET.fromstring(content)
            ET.fromstring(z.read('styles.xml'))
            body = root.find(f'{{{STYLE}}}body')
            if body.find(f'{{{STYLE}}}spreadsheet') is not None:
                return 'sheet'
            if body.find(f'{{{STYLE}}}text') is None:
                return 'bad'
            return 'outline' if b'Heading_20_3' in content else 'work'
    except Exception:
        pass
    try:
        t = proj.file_tree(path)
        return 'prj' if t['g'] == 'YWRITER7' and any(k['g'] == 'CHAPTERS' for k in t['k']) else 'bad'
    except Exception:
        return 'bad'


def listing(wd):
    out = []
    for base, dirs, files in os.walk(wd):
        for n in dirs + files:
            p = os.path.join(base, n)
            with open(p, 'rb') if os.path.isfile(p) else contextlib.nullcontext(io.BytesIO()) as f:
                h = hashlib.sha256(f.read()).hexdigest()
            if n in dirs and os.listdir(p):
                continue
            out.append({'n': os.path.relpath(p, wd), 'c': classify(p), 'h': h})
    return sorted(out, key=lambda e: e['n'])


# ---------------------------------------------------------------- user interfaces

class Stub:
    """Answers as told; remembers everything."""

    def __init__(self, yes):
        self.yes, self.asked, self.said = yes, 0, []

    def set_info_what(self, m):
        pass

    def set_info_how(self, m):
        self.said.append('failure' if m.startswith('!') else 'success')

    def ask_yes_no(self, m):
        self.asked += 1
        return self.yes

    def show_warning(self, m):
        pass

    def how(self):
        return self.said


def silent(yes):
    """The program's own silent user interface; it always agrees."""
    from pywriter.ui.ui import Ui

    class Silent(Ui):
        asked = 0

        def ask_yes_no(self, text):
            self.asked += 1
            return super().ask_yes_no(text)

        def how(self):
            return [] if not self.infoHowText else ['failure' if self.infoHowText.startswith('FAIL') else 'success']

    return Silent('')


def console(yes):
    """The program's own console user interface."""
    from pywriter.ui.ui_cmd import UiCmd

    class Console(UiCmd):
        asked = 0

        def ask_yes_no(self, text):
            self.asked += 1
            return super().ask_yes_no(text)

        def how(self):
            return [] if not self.infoHowText else ['failure' if self.infoHowText.startswith('FAIL') else 'success']

    return Console('Test')


def boxes(yes):
    """The program's own message boxes, on a toolkit that only remembers."""
    tkstub.install()
    tkstub.reset()
    tkstub.answer['askyesno'] = yes
    from pywriter.ui.ui_mb import UiMb

    class Boxes(UiMb):
        asked = property(lambda self: sum(n.startswith('ask') for n, __, __ in tkstub.boxes))

        def how(self):
            return [{'showerror': 'failure', 'showinfo': 'success'}[n] for n, __, __ in tkstub.boxes if n in ('showerror', 'showinfo')]

    return Boxes('Test')


def window(yes):
    """The program's own window."""
    tkstub.install()
    tkstub.reset()
    tkstub.answer['askyesno'] = yes
    from pywriter.ui.ui_tk import UiTk

    class Window(UiTk):
        asked = property(lambda self: sum(n.startswith('ask') for n, __, __ in tkstub.boxes))

        def how(self):
            seen = {'red': 'failure', 'green': 'success'}
            return [seen[w.cget('bg')] for w in tkstub.log.get('Label', []) if w.options.get('text') and w.cget('bg') in seen]

    return Window('Test')


def answers(g, yes):
    return g.pick(['y', 'Y']) if yes else g.pick(['n', 'N', '', 'no', 'yo no'])


# ---------------------------------------------------------------- files

_cache = {}


def simple(i):
    d = novel(i)
    for s in d['scs']:
        s['typ'], s['dne'] = '0', 'F'
    for c in d['chs']:
        c['typ'] = '0'
    return h_import.suited(d, '_manuscript')


def material(g, name, what):
    """The bytes of a file of this class that suits its name."""
    ext = os.path.splitext(name)[1]
    kind = next((k for k in h_import.KINDS if os.path.splitext(name)[0].endswith(k)), '')
    if what == 'bad' and name.endswith(('.lock', '.bak')):
        return b'x'
    sheet = ext == '.ods' or what == 'sheet'
    if what == 'bad':
        defect = g.pick(DEFECTS)
        if defect == 'empty':
            return b''
        if defect == 'garbage':
            return g.pick([b'garbage', b'\x00\xff\xfe', b'<a>', b'PK\x03\x04'])
        good = material(g, name, 'prj' if ext == '.yw7' else 'sheet' if sheet else 'work')
        if defect == 'truncated' or ext == '.yw7':
            return good[:int(len(good) * g.pick([0.3, 0.7]))]
        out = io.BytesIO()
        with zipfile.ZipFile(io.BytesIO(good)) as z, zipfile.ZipFile(out, 'w') as y:
            parts = z.namelist()
            part = 'content.xml' if sheet else g.pick(['content.xml', 'content.xml', 'styles.xml'])
            for n in parts:
                if n == part:
                    if g.chance(0.5):
                        continue
                    y.writestr(n, z.read(n)[:-20])
                else:
                    y.writestr(n, z.read(n))
        return out.getvalue()
    key = (what, kind, ext, g.r.randrange(3))
    if key not in _cache:
        _cache[key] = make(g, what, kind if kind in (h_import.SHEETS if sheet else h_import.DOCS) else '_charlist' if sheet else '')
    return _cache[key]


def make(g, what, kind):
    old = os.getcwd()
    wd = tempfile.mkdtemp(dir=old)
    os.chdir(wd)
    try:
        if what == 'prj':
            write_new('x.yw7', simple(500))
            path = 'x.yw7'
        elif what == 'outline':
            blocks = h_import.outline(g)
            start = next(i for i, b in enumerate(blocks) if b['k'] in ('h1', 'h2'))
            h_write.write_odt('x.odt', [b for i, b in enumerate(blocks) if i >= start or b['k'] != 'h3'], h_import.meta(g))
            path = 'x.odt'
        elif kind == '':
            h_write.write_odt('x.odt', h_import.work(g, 0), h_import.meta(g))
            path = 'x.odt'
        else:
            d = simple(500)
            for s in d['scs']:
                s['content'], s['desc'], s['title'] = h_import.words(g), h_import.words(g), h_import.words(g)
            for e in d['crs'] + d['lcs'] + d['its'] + d['chs']:
                e['desc'] = h_import.words(g)
            path = f'x{kind}{h_import.ext(kind)}'
            e = h_export.export(d, kind, 'x')
            if e['out'] != 'ok':
                raise pw.HarnessError(f'no document {kind}: {e["msg"]}')
        with open(path, 'rb') as f:
            return f.read()
    finally:
        os.chdir(old)
        shutil.rmtree(wd, ignore_errors=True)


def populate(g, files):
    for name, what in files:
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        if what == 'dir':
            os.makedirs(name, exist_ok=True)
        else:
            with open(name, 'wb') as f:
                f.write(material(g, name, what))


def converter(conv):
    if conv == 'both':
        from pywriter.converter.yw7_converter import Yw7Converter as C
    elif conv == 'import':
        from pywriter.converter.yw7_importer import Yw7Importer as C
    else:
        from pywriter.converter.yw7_exporter import Yw7Exporter as C
    return C()


def perform(g, c, wd, sit):
    """One conversion -> event, documents for the other judges."""
    ui = g.pick([Stub, Stub, Stub, console, boxes, window] + ([silent] if sit['yes'] else []))
    before = listing(wd)
    tmp = tempfile.gettempdir()
    temps = len(os.listdir(tmp))
    path = os.path.join(wd, sit['path']) if g.chance(0.7) else sit['path']
    kwargs = {'suffix': sit['suffix']} if sit['suffix'] or sit['path'].endswith('.yw7') or g.chance(0.5) else {}
    real = builtins.input
    builtins.input = lambda *a: answers(g, sit['yes'])
    old_tree = {}
    for e in before:
        if e['c'] == 'prj':
            old_tree[e['n']] = proj.file_tree(os.path.join(wd, e['n']))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            c.ui = ui(sit['yes'])
            out, msg = pw.outcome(lambda: c.run(path, **kwargs))
    finally:
        builtins.input = real
    how = c.ui.how()
    new = proj.NULL if c.newFile is None else os.path.relpath(os.path.join(wd, c.newFile), wd)
    event = {'ev': 'convert', 'conv': sit['conv'], 'path': sit['path'], 'suffix': sit['suffix'], 'yes': sit['yes'], 'before': before, 'after': listing(wd),
             'new': new, 'how': how, 'asked': c.ui.asked, 'out': out, 'msg': str(msg or ''), 'temp': len(os.listdir(tmp)) - temps, 'fault': 'none'}
    return event, old_tree


def follow(event, trees, wd):
    """What the document or project really is."""
    if event['out'] != 'ok' or event['how'][-1:] != ['success'] or event['new'] == proj.NULL:
        return None, None
    new = os.path.join(wd, event['new'])
    src = event['path']
    if src.endswith('.yw7'):
        from pywriter.model.novel import Novel
        from pywriter.yw.yw7_file import Yw7File
        f = Yw7File(os.path.join(wd, src))
        f.novel = Novel()
        if pw.outcome(f.read)[0] != 'ok':
            return None, None
        before = proj.novel(f.novel)
        name = os.path.basename(src)[:-4]
        return h_export.record(event['suffix'], name, before, new, ('ok', ''), before), None
    kind = next((k for k in h_import.KINDS if src.endswith(k + h_import.ext(k))), '')
    try:
        doc = h_import.read_doc(os.path.join(wd, src))
        after = proj.file_tree(new)
    except Exception:
        return None, None
    return None, {'ev': 'import', 'kind': kind, 'before': trees.get(event['new'], proj.NO_TREE), 'after': after, 'blocks': doc['blocks'], 'rows': doc['rows'],
                  'meta': doc['meta'], 'out': 'ok', 'msg': '', 'told': 'x', 'again': ''}


def run_situations(job):
    g = gen.Gen(job['seed'])
    old = os.getcwd()
    ev, docs, imports = [], [], []
    for sit in job['cases']:
        wd = tempfile.mkdtemp(dir=old)
        os.chdir(wd)
        populate(g, sit['files'])
        e, trees = perform(g, converter(sit['conv']), wd, sit)
        ev.append(e)
        d, i = follow(e, trees, wd)
        docs += [d] if d else []
        imports += [i] if i else []
        os.chdir(old)
        shutil.rmtree(wd)
    return {'seed': job['seed'], 'ev': ev, 'docs': docs, 'imports': imports}


def run_faulted(job):
    """A conversion in which one operation fails; all such operations in turn."""
    sit, old = job['case'], os.getcwd()
    ev = []

    def attempt(plan):
        wd = tempfile.mkdtemp(dir=old)
        os.chdir(wd)
        populate(gen.Gen(job['seed']), sit['files'])
        before = listing(wd)
        c = converter(sit['conv'])
        c.ui = Stub(sit['yes'])

        def snap():
            new = proj.NULL if c.newFile is None else os.path.relpath(os.path.join(wd, c.newFile), wd)
            return {'after': listing(wd), 'new': new, 'how': c.ui.how(), 'asked': c.ui.asked}

        res = h_fault.run([(lambda: c.run(sit['path'], suffix=sit['suffix']), plan)], snap, old)[0]
        os.chdir(old)
        shutil.rmtree(wd, ignore_errors=True)
        return before, res

    before, ref = attempt({})
    plans = h_fault.plans(ref['ops'], (0, 700), crash=False)
    gen.Gen(job['seed']).r.shuffle(plans)
    for plan in [{}] + plans[:job['limit']]:
        before, res = attempt(plan)
        ev.append({'ev': 'convert', 'conv': sit['conv'], 'path': sit['path'], 'suffix': sit['suffix'], 'yes': sit['yes'], 'before': before, 'out': res['out'],
                   'msg': str(res['val'] or ''), 'temp': 0, 'fault': plan.get('kind', 'none') if res['hit'] else 'none', 'plan': plan, 'hit': str(res['hit']), **res['snap']})
    return {'seed': job['seed'], 'ev': ev, 'docs': [], 'imports': []}


NAMES = ['p.yw7', 'p.odt', 'p_notes.yw7', 'q.yw7', 'q.odt', 'a.b.yw7', 'a.b.odt', 'p.yw7.odt', 'x y.yw7', 'ä_notes_b.yw7']


def run_session(job):
    """Several conversions in one folder, mostly with the same converter."""
    g = gen.Gen(job['seed'])
    old = os.getcwd()
    wd = tempfile.mkdtemp(dir=old)
    os.chdir(wd)
    files = [('p.yw7', 'prj')] if g.chance(0.8) else []
    for n in NAMES[1:]:
        if g.chance(0.3):
            files.append((n, g.pick(['prj', 'bad']) if n.endswith('.yw7') else g.pick(['work', 'outline', 'bad'])))
    if g.chance(0.1):
        files.append((g.pick(NAMES) + '.lock', 'bad'))
    populate(g, files)
    conv = converter('both')
    ev, docs, imports = [], [], []
    for __ in range(g.r.randint(3, 8)):
        if g.chance(0.15):
            conv = converter('both')
        names = [e['n'] for e in listing(wd) if e['c'] != 'dir' and not e['n'].endswith('.bak')]
        path = g.pick(names + NAMES)
        suffix = g.pick(h_export.KINDS + ['_foo']) if path.endswith('.yw7') else g.pick(['', '', '_notes'])
        sit = {'conv': 'both', 'path': path, 'suffix': suffix, 'yes': g.chance(0.75)}
        e, trees = perform(g, conv, wd, sit)
        ev.append(e)
        d, i = follow(e, trees, wd)
        docs += [d] if d else []
        imports += [i] if i else []
    os.chdir(old)
    shutil.rmtree(wd)
    return {'seed': job['seed'], 'ev': ev, 'docs': docs, 'imports': imports}
