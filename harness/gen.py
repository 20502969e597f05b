"""Seeded generators of projects, project files, and texts.

The generators only make inputs; nothing here judges a result.
"""
import ast
import os
import codecs
import random
import re
from xml.sax.saxutils import escape

import pw
from proj import NULL

WORDS = ['alpha', 'Beta', 'gamma', 'Delta', 'x', 'I', 'zwölf', 'Straße', 'naïve', 'été', '日本', 'Ω', 'emoji😀', '1', '42', 'well-known',
         "don't", 'the', 'End.', 'Who?', 'No!', 'a,b', 'e.g.', '…', '—', '–', '„quote“', '«q»', '"dq"', "'sq'"]
NASTY = ['&', '<', '>', '&amp;', '&lt;b&gt;', '&quot;', '&#65;', '&eacute;', '<b>', '</b>', '<p>', ']]>', '|', '||', '%', '%s', '%(x)s',
         '$', '$Title', '${Title}', '$$', '\\', '\\1', '\\n', '\\g<0>', '{', '}', '{0}', '[', ']', '()', '*', '**', '_', '~', '^', '`', '#',
         '##', '@', '=', '+', ';', ':', '?', '/', '//', '--', '---', '<!--', '-->', '<![CDATA[', ']]', '</Title>', '<Desc>', ']]></Desc>',
         '</SceneContent>', '<ID>1</ID>', '\u00a0', '\u200b', '\u2028', '\u00ad', '\ufeff', '\x7f', '\x85', '\u2029', 'None', 'True', '0', '-1', 'null', '\ue000',
         '<Title />', '&&', '&;', 'a&b;c', '&nbsp;', '&notit;', '\u0301', '\u202e', 'ﬁ', '\U0001F600', '%%', "''", '""', '\t']

_harvest = None


def harvest():
    """Return (strings, numbers): literals in the current source, as raw material for inputs."""
    global _harvest
    if _harvest is None:
        strings, numbers = set(), set()
        for root, __, files in os.walk(os.path.join(pw.SRC, 'pywriter')):
            for name in files:
                if not name.endswith('.py'):
                    continue
                try:
                    with open(os.path.join(root, name), encoding='utf-8') as f:
                        t = ast.parse(f.read())
                except (SyntaxError, OSError, UnicodeDecodeError):
                    continue
                for node in ast.walk(t):
                    if isinstance(node, ast.Constant):
                        if isinstance(node.value, str) and 0 < len(node.value) <= 24:
                            strings.add(node.value)
                        elif isinstance(node.value, int) and not isinstance(node.value, bool) and 0 <= node.value <= 5000:
                            numbers.add(node.value)
        ok = [s for s in sorted(strings) if 'lang=' not in s and all(c in '\n\t' or c >= ' ' for c in s)]
        _harvest = ok, sorted(numbers)
    return _harvest


def legal(s):
    """Only characters that a project file can hold."""
    return re.sub('[\x00-\x08\x0b-\x1f\x7f-\x9f\ud800-\udfff\ufffe\uffff]', '', s)


def trim(s):
    """Neither begin nor end with white space; never the NULL token."""
    s = legal(s).strip()
    s = s.strip('\ufeff').strip()
    return 'x' if s in ('', NULL) else s


class Gen:

    def __init__(self, seed):
        self.r = random.Random(seed)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, seq):
        return self.r.choice(seq)

    def length(self):
        """Mostly short, sometimes at a size that occurs in the source, rarely long."""
        k = self.r.random()
        if k < 0.7:
            return self.r.randint(1, 8)
        if k < 0.93:
            return self.r.randint(5, 40)
        return self.r.choice([n for n in harvest()[1] if n <= 400] or [60]) + self.r.randint(-1, 2)

    def piece(self, nasty=0.35):
        k = self.r.random()
        if k < nasty * 0.7:
            return self.pick(NASTY)
        if k < nasty:
            return self.pick(harvest()[0])
        return self.pick(WORDS)

    def text(self, multi=True, nasty=0.35):
        parts = []
        for __ in range(max(1, self.length())):
            parts.append(self.piece(nasty))
            k = self.r.random()
            if k < 0.62:
                parts.append(' ')
            elif k < 0.75 and multi:
                parts.append(self.pick(['\n', '\n\n', '\n\n\n']))
            elif k < 0.8:
                parts.append(self.pick(['  ', '   ', '\t']))
        s = ''.join(parts)
        if not multi:
            s = re.sub(r'\s+', ' ', s)
        s = trim(s)
        if s == 'x' and multi is False:
            s = self.pick(WORDS)
        return s

    def line(self, nasty=0.35):
        return trim(re.sub(r'[\s\u2028]+', ' ', self.text(False, nasty)))

    def word(self):
        return self.pick(WORDS)

    def tag(self, nasty=0.3):
        s = re.sub(r'[;,\n\t\u2028]', '', self.line(nasty))
        return trim(re.sub(r'^[\W_]+|[\s\u00a0\u200b]+$', '', s[:40]))

    def opt(self, p, value, none=NULL):
        return value() if self.chance(p) else none

    def ids(self, n):
        """n distinct numeric IDs, in arbitrary order, with gaps."""
        pool = list(range(1, n + 1)) if self.chance(0.5) else self.r.sample(range(1, max(4 * n, 20)), n)
        if self.chance(0.3):
            self.r.shuffle(pool)
        return [str(i) for i in pool]


# ---------------------------------------------------------------- abstract projects

def date(g):
    return f'{g.r.choice([1, 476, 1899, 1984, 2000, 2020, 2023, 9999]):04}-{g.r.randint(1, 12):02}-{g.r.randint(1, 28):02}'


def time(g, seconds=True):
    t = f'{g.r.choice([0, 1, 9, 10, 12, 23]):02}:{g.r.choice([0, 1, 9, 10, 30, 59]):02}'
    return t + f':{g.r.choice([0, 0, 7, 30, 59]):02}' if seconds else t


def start(g):
    """A scene start as an author may set it."""
    k = g.r.random()
    none = {'date': NULL, 'time': NULL, 'day': NULL}
    if k < 0.25:
        return none
    if k < 0.55:
        return dict(none, date=date(g), time=time(g, g.chance(0.8)))
    if k < 0.7:
        return dict(none, day=str(g.r.choice([0, 1, 2, 17, 365, 1000])), time=time(g, False) + ':00')
    if k < 0.8:
        return dict(none, day=str(g.r.choice([0, 1, 2, -3])))
    if k < 0.9:
        return dict(none, time=time(g, False) + ':00')
    return dict(none, date='', time='')


def scene(g, scId, crs, lcs, its, p=0.5, text=None):
    text = text or (lambda multi=True: g.text(multi))

    def refs(pool):
        if not pool or g.chance(0.4):
            return [NULL]
        return g.r.sample(pool, g.r.randint(1, len(pool)))

    d = {'id': scId, 'title': g.opt(0.95, lambda: text(False)), 'desc': g.opt(p, text),
         'content': g.opt(0.85, text), 'typ': g.pick('0000001233'), 'dne': g.pick('FFFFT'),
         'status': g.pick('12345'), 'notes': g.opt(p * 0.7, text),
         'tags': g.opt(p, lambda: uniq([g.tag() for __ in range(g.r.randint(1, 3))]), [NULL]),
         'f1': g.opt(p * 0.6, lambda: str(g.r.randint(1, 10))), 'f2': g.opt(p * 0.6, lambda: str(g.r.randint(1, 10))),
         'f3': g.opt(p * 0.6, lambda: str(g.r.randint(1, 10))), 'f4': g.opt(p * 0.6, lambda: str(g.r.randint(1, 10))),
         'app': g.pick('FFFT'), 'ld': g.opt(p * 0.5, lambda: str(g.r.randint(0, 99))),
         'lh': g.opt(p * 0.5, lambda: str(g.r.randint(0, 23))), 'lm': g.opt(p * 0.5, lambda: str(g.r.randint(0, 59))),
         'react': g.pick('FT'), 'sub': g.pick('FT'), 'goal': g.opt(p * 0.6, text), 'conf': g.opt(p * 0.6, text),
         'outc': g.opt(p * 0.6, text), 'img': g.opt(p * 0.3, lambda: text(False)),
         'chars': refs(crs), 'locs': refs(lcs), 'items': refs(its),
         'arcs': g.opt(p * 0.4, lambda: ';'.join(uniq([g.tag() for __ in range(g.r.randint(1, 2))]))),
         'mode': g.opt(p * 0.4, lambda: str(g.r.randint(1, 5)))}
    d.update(start(g))
    return d


def uniq(seq):
    out = []
    for e in seq:
        if e not in out:
            out.append(e)
    return out


def chapter(g, chId, scs, p=0.5, text=None):
    text = text or (lambda multi=True: g.text(multi))
    title = g.opt(0.95, lambda: text(False))
    supT = g.pick('FFFT')
    if title != NULL and g.chance(0.1):
        title = '@' + title
        supT = 'T'
    elif title.startswith('@'):
        supT = 'T'
    return {'id': chId, 'title': title, 'desc': g.opt(p, text), 'lev': g.pick('0001'), 'typ': g.pick('000000123'),
            'supT': supT, 'supB': g.pick('FFFT'), 'trash': g.pick('FFFFT'), 'scs': scs}


def element(g, i, p=0.6, text=None):
    text = text or (lambda multi=True: g.text(multi))
    return {'id': i, 'title': text(False), 'desc': g.opt(p, text), 'img': g.opt(p * 0.3, lambda: text(False)),
            'aka': g.opt(p, lambda: text(False)),
            'tags': g.opt(p, lambda: uniq([g.tag() for __ in range(g.r.randint(1, 3))]), [NULL]),
            'link': g.opt(p * 0.3, lambda: text(False))}


def character(g, i, p=0.6, text=None):
    text = text or (lambda multi=True: g.text(multi))
    d = element(g, i, p, text)
    d.update({'birth': g.opt(p * 0.3, lambda: date(g)), 'death': g.opt(p * 0.3, lambda: date(g)),
              'notes': g.opt(p, text), 'bio': g.opt(p, text), 'goals': g.opt(p, text),
              'full': g.opt(p, lambda: text(False)), 'major': g.pick('FT')})
    return d


def project(g, size=None, p=0.5, text=None, langs=False):
    """A well-formed project: types of scenes agree with their chapters."""
    size = size if size is not None else g.r.choice([0, 1, 2, 3, 4, 4])
    txt = text or (lambda multi=True: g.text(multi))
    crs = [character(g, i, p, text) for i in g.ids(g.r.randint(0, size))]
    lcs = [element(g, i, p, text) for i in g.ids(g.r.randint(0, size))]
    its = [element(g, i, p, text) for i in g.ids(g.r.randint(0, size))]
    pns = [{'id': i, 'title': txt(False), 'desc': g.opt(p, txt)} for i in g.ids(g.r.choice([0, 0, 1, 2]))]
    nsc = g.r.randint(0, 2 * size)
    scIds = g.ids(nsc)
    scs = [scene(g, i, [c['id'] for c in crs], [c['id'] for c in lcs], [c['id'] for c in its], p, text) for i in scIds]
    nch = g.r.randint(0, size)
    chIds = g.ids(nch)
    left = list(scIds)
    if g.chance(0.4):
        g.r.shuffle(left)
    chs = []
    for k, i in enumerate(chIds):
        n = g.r.randint(0, len(left)) if k < nch - 1 else (len(left) if g.chance(0.8) else g.r.randint(0, len(left)))
        chs.append(chapter(g, i, left[:n], p, text))
        left = left[n:]
    adjust(chs, scs)
    prj = {'title': g.opt(0.9, lambda: txt(False)), 'desc': g.opt(p, txt), 'author': g.opt(p, lambda: txt(False)),
           'bio': g.opt(p, txt), 'f1': g.opt(p, lambda: txt(False)), 'f2': g.opt(p, lambda: txt(False)),
           'f3': g.opt(p, lambda: txt(False)), 'f4': g.opt(p, lambda: txt(False)),
           'wcs': g.opt(p, lambda: str(g.r.randint(0, 999))), 'wt': g.opt(p, lambda: str(g.r.randint(0, 99999))),
           'lang': NULL, 'country': NULL, 'languages': [NULL]}
    k = g.r.random()
    if k < 0.5:
        prj['lang'], prj['country'] = g.pick([('en', 'US'), ('de', 'DE'), ('fr', 'CA'), ('de', 'CH')])
    elif k < 0.6:
        prj['lang'], prj['country'] = g.pick([('zxx', 'none'), ('english', 'US'), ('en', ''), ('', 'DE'), ('e', 'USA')])
    return {'prj': prj, 'crs': crs, 'lcs': lcs, 'its': its, 'pns': pns, 'chs': chs, 'scs': scs}


def adjust(chs, scs):
    by = {s['id']: s for s in scs}
    for c in chs:
        if c['typ'] not in ('0', NULL):
            for i in c['scs']:
                if i in by:
                    by[i]['typ'] = c['typ']


# ---------------------------------------------------------------- project files

CDATA = {'Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Tags', 'AKA', 'ImageFile',
         'FullName', 'Goals', 'Notes', 'SceneContent', 'Outcome', 'Goal', 'Conflict', 'LaTeXHeaderFile', 'RTFFile'}


def E(tag, x=None, *kids, **attrs):
    return (tag, x, list(kids), attrs)


def serialize(g, e, level=0, pretty=True, cdata=True):
    tag, x, kids, attrs = e
    a = ''.join(f' {k}="{escape(val, {chr(34): "&quot;"})}"' for k, val in attrs.items())
    pad = '\n' + '  ' * level if pretty else ''
    if kids:
        inner = ''.join(serialize(g, k, level + 1, pretty, cdata) for k in kids)
        return f'{pad}<{tag}{a}>{inner}{pad}</{tag}>'
    if x is None or x == '':
        return f'{pad}<{tag}{a} />' if not pretty or g.chance(0.5) else f'{pad}<{tag}{a}></{tag}>'
    if cdata and tag in CDATA and g.chance(0.9):
        body = '<![CDATA[' + x.replace(']]>', ']]]]><![CDATA[>') + ']]>'
    else:
        body = escape(x)
    return f'{pad}<{tag}{a}>{body}</{tag}>'


FOREIGN = ['Custom', 'ViewpointFilter', 'Ver2', 'AutoBackup', 'X', 'Field5', 'Old', 'Links']


def foreign(g, n=2, prefix=''):
    """Elements this program knows nothing about."""
    out = []
    for __ in range(g.r.randint(0, n)):
        tag = prefix + g.pick(FOREIGN)
        k = g.r.random()
        if k < 0.5:
            out.append(E(tag, g.text(nasty=0.2)))
        elif k < 0.65:
            out.append(E(tag, None))
        elif k < 0.85:
            out.append(E(tag, None, E('Sub', g.line(0.2)), E('ID', '7'), E('Title', g.line(0.2))))
        else:
            out.append(E(tag, g.line(0.1), a=g.line(0.2), b='1'))
    return out


def shuffle_in(g, kids, extra):
    """Put extra elements at random places (after the ID)."""
    kids = list(kids)
    for e in extra:
        kids.insert(g.r.randint(1, len(kids)) if kids else 0, e)
    return kids


def xml_scene(g, i, crs, lcs, its):
    k = [E('ID', i)]

    def put(p, tag, value):
        if g.chance(p):
            k.append(E(tag, value()))

    put(0.95, 'Title', lambda: g.opt(0.9, lambda: g.line(), ''))
    put(0.5, 'Desc', lambda: g.opt(0.8, g.text, ''))
    put(0.95, 'SceneContent', lambda: g.opt(0.85, g.text, ''))
    put(0.3, 'WordCount', lambda: str(g.r.randint(0, 500)))
    put(0.3, 'LetterCount', lambda: str(g.r.randint(0, 500)))
    put(0.2, 'RTFFile', lambda: 'RTF_1.rtf')
    put(0.2, 'BelongsToChID', lambda: '1')
    put(0.35, 'Unused', lambda: '-1')
    fields = []
    if g.chance(0.4):
        fields.append(E('Field_SceneType', g.pick(['0', '1', '2', '3', '', 'x'])))
    if g.chance(0.3):
        fields.append(E('Field_SceneArcs', g.tag()))
    if g.chance(0.3):
        fields.append(E('Field_SceneMode', g.pick(['1', '2', '3', '5', '0', 'x', ''])))
    fields += foreign(g, 2, 'Field_')
    if fields or g.chance(0.1):
        g.r.shuffle(fields)
        k.append(E('Fields', None, *fields))
    put(0.3, 'ExportCondSpecific', lambda: '')
    put(0.3, 'ExportWhenRTF', lambda: '-1')
    put(0.8, 'Status', lambda: g.pick('12345'))
    put(0.3, 'Notes', lambda: g.opt(0.8, g.text, ''))
    put(0.4, 'Tags', lambda: g.opt(0.85, lambda: g.pick([';', '; ', ' ;', ';;']).join(g.tag() for __ in range(g.r.randint(1, 4))), ''))
    for n in '1234':
        put(0.3, 'Field' + n, lambda: g.pick(['1', '5', '10', '', '3']))
    put(0.2, 'AppendToPrev', lambda: '-1')
    s = g.r.random()
    if s < 0.3:
        k.append(E('SpecificDateTime', g.pick([date(g) + ' ' + time(g), date(g) + ' ' + time(g, False), date(g), date(g) + 'T' + time(g),
                                               '2021-02-29 10:00:00', '2020-02-29 10:00:00', 'someday', '', '0000-00-00 00:00:00',
                                               '1900-02-29 01:01:01', '2023-13-01 10:00:00', '2023-04-31 10:00:00', '2023-04-30 24:00:00'])))
        put(0.9, 'SpecificDateMode', lambda: '-1')
    if s >= 0.3 or g.chance(0.3):
        put(0.4, 'Day', lambda: g.pick(['1', '0', '12', '-4', 'x', '', ' 7 ', '1.5', '+3']))
        put(0.4, 'Hour', lambda: g.pick(['1', '0', '12', '23', '', '07']))
        put(0.4, 'Minute', lambda: g.pick(['1', '0', '12', '59', '', '05']))
    put(0.2, 'LastsDays', lambda: g.pick(['1', '0', '', '14']))
    put(0.2, 'LastsHours', lambda: g.pick(['1', '0', '', '23']))
    put(0.2, 'LastsMinutes', lambda: g.pick(['1', '0', '', '59']))
    put(0.3, 'ReactionScene', lambda: '-1')
    put(0.3, 'SubPlot', lambda: '-1')
    put(0.3, 'Goal', lambda: g.opt(0.8, g.text, ''))
    put(0.3, 'Conflict', lambda: g.opt(0.8, g.text, ''))
    put(0.3, 'Outcome', lambda: g.opt(0.8, g.text, ''))
    put(0.2, 'ImageFile', lambda: g.opt(0.8, g.line, ''))
    for sect, tag, pool in (('Characters', 'CharID', crs), ('Locations', 'LocID', lcs), ('Items', 'ItemID', its)):
        if g.chance(0.5):
            refs = g.r.sample(pool, g.r.randint(0, len(pool)))
            if g.chance(0.3):
                refs.insert(g.r.randint(0, len(refs)), str(g.r.randint(900, 999)))  # dangling
            k.append(E(sect, None, *[E(tag, r) for r in refs]))
    return E('SCENE', None, *shuffle_in(g, k, foreign(g)))


def xml_chapter(g, i, scs):
    k = [E('ID', i)]
    if g.chance(0.95):
        t = g.opt(0.9, lambda: g.line(), '')
        k.append(E('Title', ('@' + t) if g.chance(0.1) else t))
    if g.chance(0.5):
        k.append(E('Desc', g.opt(0.8, g.text, '')))
    if g.chance(0.3):
        k.append(E('Unused', '-1'))
    if g.chance(0.3):
        k.append(E('SortOrder', '3'))
    if g.chance(0.2):
        k.append(E('SectionStart', '-1'))
    if g.chance(0.8):
        k.append(E('Type', g.pick(['0', '0', '1', ''])))
    if g.chance(0.7):
        k.append(E('ChapterType', g.pick(['0', '0', '1', '2', '3', ''])))
    fields = []
    for f in ('Field_SuppressChapterTitle', 'Field_SuppressChapterBreak', 'Field_IsTrash'):
        if g.chance(0.3):
            fields.append(E(f, g.pick(['0', '1', '1', '', '-1'])))
    fields += foreign(g, 1, 'Field_')
    if fields or g.chance(0.1):
        k.append(E('Fields', None, *fields))
    if scs or g.chance(0.3):
        k.append(E('Scenes', None, *[E('ScID', s) for s in scs]))
    return E('CHAPTER', None, *shuffle_in(g, k, foreign(g, 1)))


def xml_element(g, tag, i, extra=()):
    k = [E('ID', i)]
    for t, f in (('Title', g.line), ('ImageFile', g.line), ('Desc', g.text), ('AKA', g.line)) + tuple(extra):
        if g.chance(0.6) or t == 'Title':
            k.append(E(t, g.opt(0.85, f, '')))
    if g.chance(0.5):
        k.append(E('Tags', g.opt(0.85, lambda: ';'.join(g.tag() for __ in range(g.r.randint(1, 3))), '')))
    if g.chance(0.3):
        k.append(E('SortOrder', '1'))
    fields = []
    for f in (('Field_Link',) if not extra else ('Field_Link', 'Field_BirthDate', 'Field_DeathDate')):
        if g.chance(0.4):
            fields.append(E(f, g.opt(0.8, g.line, '')))
    if fields:
        k.append(E('Fields', None, *fields))
    if extra and g.chance(0.4):
        k.append(E('Major', '-1'))
    return E(tag, None, *k)


def xml_project(g, size=None):
    """A project file as some version of yWriter may have left it."""
    size = size if size is not None else g.r.choice([0, 1, 2, 3, 4])
    crs, lcs, its = (g.ids(g.r.randint(0, size)) for __ in range(3))
    p = []
    if g.chance(0.9):
        p.append(E('Ver', g.pick(['7', '5'])))
    for t, f in (('Title', g.line), ('AuthorName', g.line), ('Bio', g.text), ('Desc', g.text), ('FieldTitle1', g.line),
                 ('FieldTitle2', g.line), ('FieldTitle3', g.line), ('FieldTitle4', g.line)):
        if g.chance(0.6):
            p.append(E(t, g.opt(0.85, f, '')))
    for t in ('WordCountStart', 'WordTarget'):
        if g.chance(0.4):
            p.append(E(t, g.pick(['0', '1', '50000', '', 'many', '007'])))
    if g.chance(0.3):
        p.append(E('SavedWith', 'yWriter7'))
        p.append(E('SavedOn', '2020-01-01'))
    fields = foreign(g, 1, 'Field_')
    if g.chance(0.2):
        fields.append(E('Field_LanguageCode', g.pick(['en', 'de', ''])))
        fields.append(E('Field_CountryCode', g.pick(['US', 'AT', ''])))
    if fields:
        p.append(E('Fields', None, *fields))
    p = shuffle_in(g, [E('Ver0', '0')] + p, foreign(g))
    root = [E('PROJECT', None, *p)]
    root.append(E('LOCATIONS', None, *[xml_element(g, 'LOCATION', i) for i in lcs]))
    root.append(E('ITEMS', None, *[xml_element(g, 'ITEM', i) for i in its]))
    root.append(E('CHARACTERS', None, *[xml_element(g, 'CHARACTER', i, (('Notes', g.text), ('Bio', g.text), ('Goals', g.text),
                                                                      ('FullName', g.line))) for i in crs]))
    if g.chance(0.6):
        notes = []
        for i in g.ids(g.r.randint(0, 2)):
            k = [E('ID', i), E('Title', g.line())]
            if g.chance(0.6):
                k.append(E('Desc', g.opt(0.8, g.text, '')))
            if g.chance(0.2):
                k.append(E('Fields', None, E('Field_X', '1')))
            notes.append(E('PROJECTNOTE', None, *k))
        root.append(E('PROJECTNOTES', None, *notes))
    if g.chance(0.6):
        vs = []
        names = g.r.sample(['Language', 'Country', 'lang=de-DE', 'lang=en-GB', '/lang=de-DE', 'MyVar', 'Other', 'lang=a=b', 'Languages',
                            'lang=', 'xlang=fr-FR'],
                           g.r.randint(0, 6))
        for i, n in zip(g.ids(len(names)), names):
            d = {'Language': lambda: g.pick(['en', 'de', 'zxx', '', 'english']),
                 'Country': lambda: g.pick(['US', 'DE', 'none', '', 'USA'])}.get(n, g.line)()
            vs.append(E('PROJECTVAR', None, E('ID', i), E('Title', n), E('Desc', d), E('Tags', '0'), *foreign(g, 1)))
        root.append(E('PROJECTVARS', None, *vs))
    root += foreign(g)
    scIds = g.ids(g.r.randint(0, 2 * size))
    root.append(E('SCENES', None, *[xml_scene(g, i, crs, lcs, its) for i in scIds]))
    left = list(scIds)
    if g.chance(0.3):
        g.r.shuffle(left)
    chs = []
    chIds = g.ids(g.r.randint(0, size))
    for k, i in enumerate(chIds):
        n = g.r.randint(0, len(left)) if k < len(chIds) - 1 else len(left)
        scs = left[:n]
        left = left[n:]
        if g.chance(0.1):
            scs = scs + [str(g.r.randint(900, 999))]  # dangling
        chs.append(xml_chapter(g, i, scs))
    root.append(E('CHAPTERS', None, *chs))
    root += foreign(g, 1)
    if g.chance(0.2):
        g.r.shuffle(root)
    return E('YWRITER7', None, *root)


def xml_text(g, root):
    """Serialize like some yWriter version; return the bytes."""
    body = serialize(g, root, 0, g.chance(0.85), g.chance(0.85)).lstrip('\n')
    k = g.r.random()
    if k < 0.85:
        return ('<?xml version="1.0" encoding="utf-8"?>\n' + body).encode('utf-8')
    if k < 0.93:
        return body.encode('utf-8')
    text = '<?xml version="1.0" encoding="utf-16"?>\n' + body
    return text.encode('utf-16') if k < 0.97 else codecs.BOM_UTF16_BE + text.encode('utf-16-be')


# ---------------------------------------------------------------- edits in memory

def edit(g, d):
    """Return a changed copy of project d (any change an application may make)."""
    import copy
    d = copy.deepcopy(d)
    crs, lcs, its = ([e['id'] for e in d[k]] for k in ('crs', 'lcs', 'its'))
    for __ in range(g.r.randint(1, 5)):
        k = g.r.randint(0, 13)
        if k == 0 and d['scs']:
            s = g.pick(d['scs'])
            new = scene(g, s['id'], crs, lcs, its)
            if new['content'] == NULL:
                new['content'] = g.text()
            for f in g.r.sample(sorted(new), g.r.randint(1, len(new))):
                if f in ('id', 'date', 'time', 'day'):
                    continue
                if new[f] == NULL and f in ('arcs', 'mode', 'content'):
                    continue
                s[f] = cleared(g, f, new[f])
            if g.chance(0.6):
                s.update(start(g))
        elif k == 1 and d['chs']:
            c = g.pick(d['chs'])
            new = chapter(g, c['id'], c['scs'])
            for f in g.r.sample(sorted(new), g.r.randint(1, len(new))):
                c[f] = cleared(g, f, new[f])
        elif k == 2:
            i = fresh(d['scs'])
            d['scs'].append(scene(g, i, crs, lcs, its))
            if d['chs']:
                c = g.pick(d['chs'])
                c['scs'].insert(g.r.randint(0, len(c['scs'])), i)
        elif k == 3:
            d['chs'].insert(g.r.randint(0, len(d['chs'])), chapter(g, fresh(d['chs']), []))
        elif k == 4 and d['scs']:
            s = d['scs'].pop(g.r.randrange(len(d['scs'])))
            for c in d['chs']:
                c['scs'] = [i for i in c['scs'] if i != s['id']]
        elif k == 5:
            g.r.shuffle(d['chs'])
            for c in d['chs']:
                g.r.shuffle(c['scs'])
        elif k == 6:
            sect = g.pick(['crs', 'lcs', 'its'])
            mk = character if sect == 'crs' else element
            if d[sect] and g.chance(0.4):
                d[sect].pop(g.r.randrange(len(d[sect])))
            elif d[sect] and g.chance(0.5):
                j = g.r.randrange(len(d[sect]))
                d[sect][j] = mk(g, d[sect][j]['id'])
            else:
                d[sect].insert(g.r.randint(0, len(d[sect])), mk(g, fresh(d[sect])))
            g.chance(0.3) and g.r.shuffle(d[sect])
        elif k == 7:
            new = project(g, 0)['prj']
            for f in g.r.sample(sorted(new), g.r.randint(1, len(new))):
                if f != 'languages':
                    d['prj'][f] = cleared(g, f, new[f])
        elif k == 8:
            if d['pns'] and g.chance(0.5):
                d['pns'].pop(g.r.randrange(len(d['pns'])))
            else:
                d['pns'].append({'id': fresh(d['pns']), 'title': g.line(), 'desc': g.opt(0.6, g.text)})
        elif k == 9:
            langs = [x for x in d['prj']['languages'] if x != NULL]
            for x in g.r.sample(['de-DE', 'en-GB', 'fr-FR', 'es-ES'], g.r.randint(0, 2)):
                if x not in langs:
                    langs.append(x)
            d['prj']['languages'] = langs or [NULL]
        elif k == 10 and d['chs']:
            # two chapters are merged, one is left empty, or a chapter disappears
            b = g.pick([c for c in d['chs'] if c['scs']] or d['chs'])
            a = g.pick(d['chs'])
            if a is not b:
                a['scs'] = a['scs'] + b['scs']
            b['scs'] = []
            if g.chance(0.3):
                d['chs'] = [c for c in d['chs'] if c is not b]
        elif k == 11:
            # everything of one kind is given up
            sect = g.pick(['crs', 'lcs', 'its', 'pns', 'scs', 'chs'])
            d[sect] = []
            if sect == 'scs':
                for c in d['chs']:
                    c['scs'] = []
        elif k == 12:
            d['prj'][g.pick(['wcs', 'wt'])] = g.pick(['0', '1', '80000'])
        elif k == 13 and d['scs']:
            # nobody and nothing is in the scene any more; or it is over at once
            s = g.pick(d['scs'])
            for f in g.r.sample(['chars', 'locs', 'items'], 2):
                s[f] = []
            for f in ('ld', 'lh', 'lm'):
                if s[f] != NULL and g.chance(0.5):
                    s[f] = g.pick(['', '0'])
    # references to elements that do not exist any more are the application's fault
    for s in d['scs']:
        for f, sect in (('chars', 'crs'), ('locs', 'lcs'), ('items', 'its')):
            if s[f] != [NULL]:
                ids = [e['id'] for e in d[sect]]
                s[f] = [i for i in s[f] if i in ids]
    adjust(d['chs'], d['scs'])
    return d


CLEARABLE = ('title', 'desc', 'content', 'notes', 'f1', 'f2', 'f3', 'f4', 'goal', 'conf', 'outc', 'img', 'ld', 'lh', 'lm', 'author', 'bio')


def cleared(g, f, x):
    """Sometimes the author clears a text."""
    if f in CLEARABLE and g.chance(0.6 if x == NULL else 0.12):
        return ''
    if f == 'tags' and x == [NULL] and g.chance(0.6):
        return []
    return x


def fresh(es):
    n = 1
    ids = {e['id'] for e in es}
    while str(n) in ids:
        n += 1
    return str(n)
