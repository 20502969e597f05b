"""Recorded work with the translation tools: scanning sources, updating translations, compiling catalogues."""
import ast
import contextlib
import gettext
import hashlib
import io
import json
import os
import shutil
import struct

import gen
import h_window
import pw

LANGS = ['de', 'fr']
NULL = '\\N'


# ---------------------------------------------------------------- reading and writing the files, independently of the tools

def entries(text):
    """All entries of a PO file."""
    out, cur, sect, idx = [], None, None, ''

    def fresh():
        return {'c': NULL, 'm': '', 't': '', 'fuzzy': False, 'pl': None}

    flags = False
    for line in text.split('\n'):
        line = line.strip()
        if line.startswith('#'):
            if line.startswith('#,') and 'fuzzy' in line:
                flags = True
            continue
        if not line:
            continue
        word, quote, rest = line.partition('"')
        word = word.strip()
        value = ast.literal_eval(quote + rest)
        if word in ('msgctxt', 'msgid') and (cur is None or sect == 't' or word == 'msgctxt'):
            cur = fresh()
            cur['fuzzy'] = flags
            flags = False
            out.append(cur)
        if word:
            sect = {'msgctxt': 'c', 'msgid': 'm', 'msgid_plural': 'p', 'msgstr': 't'}[word.partition('[')[0]]
            if sect == 'c':
                cur['c'] = ''
            elif sect == 'p':
                cur['m'] += '\0'
                sect = 'm'
            elif word.startswith('msgstr[') and word != 'msgstr[0]':
                cur['t'] += '\0' if cur['t'] else ''
        cur[sect] += value
    return [{k: e[k] for k in ('c', 'm', 't', 'fuzzy')} for e in out]


def quoted(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'


def wrapped(g, word, s):
    """A PO line, or several ones."""
    if len(s) > 3 and g is not None and g.chance(0.4):
        cuts = sorted({0, *(g.r.randrange(len(s)) for __ in range(g.r.randint(0, 3))), len(s)})
        first = '""\n' if g.chance(0.8) else ''
        return f'{word} {first}' + '\n'.join(quoted(s[a:b]) for a, b in zip(cuts, cuts[1:])) + '\n'
    return f'{word} {quoted(s)}\n'


def po_text(g, old, tab):
    """The PO file a translator has saved: the old header, the entries in any layout."""
    head = old.split('\nmsgid "')[0] if old else ''
    i = old.find('\n\n', old.find('msgstr ""')) if old else -1
    head = old[:i + 2] if i > 0 else 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n'
    parts = []
    for m, t in tab.items():
        c = g.pick(['', '', '# translator\n', '#: src/a.py:12\n', '#. note\n#, python-format\n']) if g else ''
        parts.append(c + wrapped(g, 'msgid', m) + wrapped(g, 'msgstr', t))
    obsolete = '\n#~ msgid "gone"\n#~ msgstr "weg"\n' if g and g.chance(0.2) else ''
    return head + ('\n' if not g or g.chance(0.9) else '\n\n').join(parts) + obsolete


def mo_table(data):
    magic, __, n, ko, vo = struct.unpack('<IIIII', data[:20])
    assert magic == 0x950412de

    def text(at):
        size, off = struct.unpack('<II', data[at:at + 8])
        assert data[off + size] == 0
        return data[off:off + size].decode('utf-8')

    return [{'m': text(ko + 8 * i).replace('\4', '|').replace('\0', '\\0'), 't': text(vo + 8 * i).replace('\0', '\\0')} for i in range(n)]


def look(path, kind):
    r = {'raw': '', 'bak': '', 'ok': True, 'tab': [], 'date': ''}
    for key, p in (('raw', path), ('bak', path + '.bak')):
        if os.path.exists(p):
            with open(p, 'rb') as f:
                r[key] = hashlib.sha256(f.read()).hexdigest()[:16]
    if r['raw']:
        with open(path, 'rb') as f:
            data = f.read()
        try:
            if kind == 'mo':
                r['tab'] = [e for e in mo_table(data) if e['m']]
            elif kind == 'json':
                r['tab'] = [{'m': ast.literal_eval(f'"{k}"'), 't': ast.literal_eval(f'"{v}"')} for k, v in json.loads(data.decode('utf-8')).items()]
            else:
                es = entries(data.decode('utf-8'))
                r['tab'] = [{'m': e['m'], 't': e['t']} for e in es if e['m']]
                head = [e['t'] for e in es if not e['m']]
                r['date'] = [x for h in head for x in h.split('\n') if x.startswith('POT-Creation-Date')] or ['']
                r['date'] = r['date'][0]
        except Exception:
            r['ok'] = False
    return r


# ---------------------------------------------------------------- messages and sources

def literal(g, m):
    """A call that marks the message in Python source code."""
    esc = m.replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t')
    if '"' in m and "'" not in m and g.chance(0.7):
        return f"_('{esc}')"
    if '"' not in m and "'" not in m and g.chance(0.5):
        return f"_('{esc}')"
    return '_("' + esc.replace('"', '\\"') + '")'


def source(g, ms):
    lines = ['"""A module."""', 'import os', 'from pywriter_globals import _', '']
    for m in ms:
        c = literal(g, m)
        lines.append(g.pick([f'print({c})', f'    raise Error({c})', f'x = f\'{{{c}}}: "{{path}}".\'' if "'" not in c else f'print({c})', f'y = [{c}, 1]',
                             f'# {c}', f'z = {c} + foo("bar") + \'baz\'']))
        if g.chance(0.3):
            lines.append(g.pick(['print("not marked")', "d = {'a': \"b\"}", 'self.x_ = ("u")', '']))
    return '\n'.join(lines) + '\n'


WORDS = ['Chapter', 'Scene {0}', 'Cannot write file', 'Über', '日本語', '%s files', 'Save "as"', "Don't", "It's \"so\"", 'a\\b', 'two\nlines', 'tab\there', 'x', ' ', 'msgid', '#', '"',
         'Open...', 'Notes:', '$app', '${datetime}', 'A; B', 'É', 'not found', '(none)', 'msgstr ""', '--', '\U0001f600', '\\', '\\n']


def message(g):
    while True:
        m = ''.join(g.pick(WORDS) if g.chance(0.8) else g.word() for __ in range(g.r.randint(1, 4)))
        # an escaped quotation mark in front of a parenthesis looks like the end of the call
        if '")' not in m and "')" not in m and not any(c in m for c in '\r\u2028\u2029\x85\x0b\x0c\x1c\x1d\x1e') and m.strip('"\''):
            return m


# ---------------------------------------------------------------- a workplace

class Work:

    def __init__(self, g, wd):
        self.g, self.wd, self.ev, self.src = g, wd, [], []
        for d in ('PyWriter/i18n', 'proj/i18n', 'proj/src/sub'):
            os.makedirs(os.path.join(wd, d))
        os.chdir(os.path.join(wd, 'proj', 'src'))
        self.files = {'pot': '../i18n/messages.pot', 'po_de': '../i18n/de.po', 'po_fr': '../i18n/fr.po', 'mo_de': 'de.mo', 'mo_fr': 'fr.mo',
                      'json_de': '../../PyWriter/i18n/de.json', 'json_fr': '../../PyWriter/i18n/fr.json'}

    def log(self, ev, **kw):
        st = {f: look(p, f.split('_')[0].replace('pot', 'po')) for f, p in self.files.items()}
        st['src'] = sorted(set(self.src))
        self.ev.append(dict({'ev': ev, 'st': st}, **kw))

    def sources(self, ms, log=True):
        """The messages are spread over some files; some occur more than once."""
        g = self.g
        self.src = list(ms)
        parts = {'a.py': [], 'sub/b.py': [], 'sub/c.py': []}
        for m in ms:
            for p in g.r.sample(sorted(parts), g.r.randint(1, 2)):
                parts[p].append(m)
        for p, x in parts.items():
            with open(p, 'w', encoding='utf-8') as f:
                f.write(source(g, x + x[:g.r.randint(0, 1)]))
        with open('sub/readme.txt', 'w', encoding='utf-8') as f:
            f.write('_("Not a source file")\n')
        if log:
            self.log('work')

    def tool(self, action, plan=None):
        out = io.StringIO()
        p = h_window.fault(plan, self.wd) if plan else None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                kind, ret = pw.outcome(action)
            finally:
                if p:
                    p.active = False
        return dict(out=kind, ret=ret, hit=bool(p and p.hit), told='ERROR' in out.getvalue())

    def scan(self, plan=None, bad=False):
        import pgettext
        if bad:
            with open('sub/bad.py', 'wb') as f:
                f.write(b'_("\xff\xfe")')
        r = self.tool(lambda: pgettext.main('.'), plan)
        if bad:
            os.remove('sub/bad.py')
        self.log('scan', out=r['out'], msg=str(r['ret'] or ''), hit=r['hit'], told=r['told'], bad=bad)

    def update(self, lang, shared, plan=None):
        import translations
        r = self.tool(lambda: translations.main(lang, app='App', json=shared), plan)
        self.log('update', lang=lang, shared=shared, out=r['out'], ret=r['ret'] is True, msg=str(r['ret']), hit=r['hit'], told=r['told'])

    def table(self, f):
        x = look(self.files[f], f.split('_')[0])
        return {e['m']: e['t'] for e in x['tab']} if x['ok'] else {}

    def translate(self, lang, changes, plain=False):
        """The translator fills in translations."""
        tab = self.table(f'po_{lang}')
        path = self.files[f'po_{lang}']
        old = ''
        if os.path.exists(path):
            with open(path, encoding='utf-8') as f:
                old = f.read()
        tab.update(changes)
        with open(path, 'w', encoding='utf-8') as f:
            f.write(po_text(None if plain else self.g, old, tab))
        self.log('work')

    def dictionary(self, lang, tab):
        path = self.files[f'json_{lang}']
        if tab is None:
            if os.path.exists(path):
                os.remove(path)
        elif tab == 'bad':
            with open(path, 'w', encoding='utf-8') as f:
                f.write('{"a": ')
        else:
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({quoted(k)[1:-1]: quoted(v)[1:-1] for k, v in tab.items()}, f, ensure_ascii=self.g.chance(0.5))
        self.log('work')

    def compile(self, lang):
        import msgfmt
        if not os.path.exists(self.files[f'po_{lang}']):
            return
        po, mo = self.files[f'po_{lang}'], self.files[f'mo_{lang}']
        r = self.tool(lambda: msgfmt.make(po, mo))
        shows = []
        if r['out'] == 'ok':
            try:
                with open(mo, 'rb') as f:
                    t = gettext.GNUTranslations(f)
                ms = sorted({*self.src, *self.table('po_de'), *self.table('po_fr')})
                shows = [{'m': m, 't': t.gettext(m)} for m in ms]
            except Exception as ex:
                r['out'] = f'unusable: {type(ex).__name__}'
        self.log('compile', lang=lang, out=r['out'], msg=str(r['ret']), shows=shows)

    def foreign(self):
        """A file with contexts, plural forms, and fuzzy entries."""
        import msgfmt
        g = self.g
        text = g.pick(['# head\n', '']) + 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n"Plural-Forms: nplurals=2; plural=n != 1;\\n"\n\n'
        seen = set()
        for __ in range(g.r.randint(0, 6)):
            c = g.pick([None, None, 'menu', 'ctx x'])
            m = message(g)
            if (c, m) in seen:
                continue
            seen.add((c, m))
            text += g.pick(['', '', '', '# c\n', '#: a.py:1\n']) + g.pick(['', '', '', '#, fuzzy\n', '#, python-format, fuzzy\n', '#, python-format\n'])
            if c:
                text += wrapped(g, 'msgctxt', c)
            text += wrapped(g, 'msgid', m)
            t = message(g) if g.chance(0.8) else ''
            if g.chance(0.2):       # either both forms are translated or none
                text += wrapped(g, 'msgid_plural', m + 's') + wrapped(g, 'msgstr[0]', t) + wrapped(g, 'msgstr[1]', t and t + 'n')
            else:
                text += wrapped(g, 'msgstr', t)
            text += g.pick(['\n', '\n', '', '\n\n'])
        with open('f.po', 'w', encoding='utf-8') as f:
            f.write(text)
        r = self.tool(lambda: msgfmt.make(g.pick(['f.po', 'f']), g.pick(['f.mo', None])))
        tab, ok = [], True
        try:
            with open('f.mo', 'rb') as f:
                tab = [e for e in mo_table(f.read()) if e['m']]
        except Exception:
            ok = False
        es = [{k: (v.replace('\0', '\\0') if isinstance(v, str) else v) for k, v in e.items()} for e in entries(text) if e['m']]
        for p in ('f.po', 'f.mo'):
            if os.path.exists(p):
                os.remove(p)
        self.log('foreign', out=r['out'], msg=str(r['ret']), ok=ok, tab=tab, entries=es)


def case(g, w, ops):
    w.sources(['a', 'b'], False)
    w.log('start')
    w.scan()
    for lang in LANGS:
        w.update(lang, False)
    w.translate('de', {'a': 'x'}, True)
    for o in ops:
        if o['k'] == 'src':
            w.sources(list(o['m']))
        elif o['k'] == 'scan':
            w.scan()
        elif o['k'] == 'po':
            if o['m'] in w.table(f'po_{o["l"]}'):
                w.translate(o['l'], {o['m']: o['t']}, True)
        elif o['k'] == 'update':
            w.update(o['l'], o['t'] == 'T')
        else:
            w.compile(o['l'])


def history(g, w):
    pool = [message(g) for __ in range(g.r.randint(1, 7))]
    some = lambda p=0.6: [m for m in dict.fromkeys(pool) if g.chance(p)]
    w.sources(some(), False)
    w.log('start')
    for __ in range(g.r.randint(3, 12)):
        k = g.r.random()
        plan = {'kind': g.pick(['fail', 'fail', 'fail*']), 'n': g.r.randint(1, 9), 'exc': g.pick(['os', 'perm'])} if g.chance(0.12) else None
        lang = g.pick(LANGS)
        if k < 0.12:
            w.sources(some(g.pick([0.3, 0.8])))
        elif k < 0.3:
            w.scan(plan, g.chance(0.08))
        elif k < 0.5:
            w.translate(lang, {m: message(g) if g.chance(0.8) else '' for m in some(0.5)})
        elif k < 0.55:
            w.dictionary(lang, g.pick([None, 'bad', {m: message(g) for m in some()}, {m: message(g) for m in some()}]))
        elif k < 0.8:
            w.update(lang, g.chance(0.6), plan)
        elif k < 0.93:
            w.compile(lang)
        else:
            w.foreign()


def run(job):
    import sys
    g = gen.Gen(job['seed'])
    old = os.getcwd()
    out = []
    for c in job['cases']:
        wd = os.path.join(old, 'w')
        os.makedirs(wd)
        w = Work(g, wd)
        case(g, w, c) if c else history(g, w)
        out.append({'seed': job['seed'], 'ev': w.ev})
        os.chdir(old)
        shutil.rmtree(wd)
    return {'seed': job['seed'], 'all': out}
