"""Write OpenDocument files the way an office suite does: the same content in many representations."""
import io
import re
import zipfile
from xml.sax.saxutils import escape, quoteattr

NSDECL = ' '.join(f'xmlns:{p}="{u}"' for p, u in (
    ('office', 'urn:oasis:names:tc:opendocument:xmlns:office:1.0'), ('style', 'urn:oasis:names:tc:opendocument:xmlns:style:1.0'),
    ('text', 'urn:oasis:names:tc:opendocument:xmlns:text:1.0'), ('table', 'urn:oasis:names:tc:opendocument:xmlns:table:1.0'),
    ('fo', 'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0'), ('xlink', 'http://www.w3.org/1999/xlink'),
    ('dc', 'http://purl.org/dc/elements/1.1/'), ('meta', 'urn:oasis:names:tc:opendocument:xmlns:meta:1.0'),
    ('loext', 'urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0')))
HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n'
MANIFEST = (HEAD + '<manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0" manifest:version="1.2">'
            '<manifest:file-entry manifest:full-path="/" manifest:media-type="{mime}"/>'
            '<manifest:file-entry manifest:full-path="content.xml" manifest:media-type="text/xml"/>'
            '<manifest:file-entry manifest:full-path="styles.xml" manifest:media-type="text/xml"/>'
            '<manifest:file-entry manifest:full-path="meta.xml" manifest:media-type="text/xml"/></manifest:manifest>')


class Writer:
    """One document. r: a random generator that chooses among equivalent representations (None: the plainest)."""

    def __init__(self, r=None):
        self.r = r
        self.auto = {}
        self.notes = 0
        self.marks = 0

    def chance(self, p):
        return self.r is not None and self.r.random() < p

    def style(self, family, props, parent=None):
        key = (family, props, parent)
        if key not in self.auto:
            n = sum(1 for k in self.auto if k[0] == family) + 1
            self.auto[key] = ('T' if family == 'text' else 'P') + str(n)
        return self.auto[key]

    def props(self, f):
        p = ''
        for x in f:
            if x == 'b':
                p += ' fo:font-weight="bold"'
            elif x == 'i':
                p += ' fo:font-style="italic"'
            else:
                lang, __, ctr = x[5:].partition('-')
                p += f' fo:language={quoteattr(lang)}'
                if ctr or not self.chance(0.3):
                    p += f' fo:country={quoteattr(ctr or "none")}'
        return p

    def cellpar(self, x):
        """A paragraph of a cell, parts of which may be formatted, once or several times."""
        def coded(x):
            if self.r is None:
                return escape(x)
            return escape(x).replace('\t', '<text:tab/>')

        if not x or not self.chance(0.25):
            return coded(x)
        i = self.r.randint(0, len(x))
        j = self.r.randint(i, len(x))
        k = self.r.randint(i, j)
        inner = f'{coded(x[i:k])}<text:span text:style-name="T2">{coded(x[k:j])}</text:span>' if self.chance(0.5) else coded(x[i:j])
        return f'{coded(x[:i])}<text:span text:style-name="T1">{inner}</text:span>{coded(x[j:])}'

    def cellpars(self, lines):
        """The lines of a cell: paragraphs, or line breaks within a paragraph."""
        out = self.cellpar(lines[0])
        for x in lines[1:]:
            out += ('<text:line-break/>' if self.r is not None and self.chance(0.1) else '</text:p><text:p>') + self.cellpar(x)
        return f'<text:p>{out}</text:p>'

    def spanned(self, x, f):
        """The text x, formatted by f."""
        if not f:
            if self.chance(0.05):
                return f'<text:span text:style-name={quoteattr(self.style("text", ' loext:rsid="1"'))}>{x}</text:span>'
            return x
        if x.strip() and self.chance(0.02):
            # a link
            return f'<text:a xlink:type="simple" xlink:href="https://example.org/?a=1&amp;b=2">{self.spanned(x, f)}</text:a>'
        if len(f) == 1 and f[0] in 'bi' and not self.chance(0.5):
            name = {'b': 'Strong_20_Emphasis', 'i': 'Emphasis'}[f[0]]
            return f'<text:span text:style-name="{name}">{x}</text:span>'
        if len(f) > 1 and self.chance(0.5):
            # nested, in any order
            f = list(f)
            first = f.pop(self.r.randrange(len(f)))
            return self.nest(first, self.spanned(x, f))
        return f'<text:span text:style-name="{self.style("text", self.props(f))}">{x}</text:span>'

    def nest(self, f, inner):
        if f in 'bi' and not self.chance(0.4):
            name = {'b': 'Strong_20_Emphasis', 'i': 'Emphasis'}[f]
        else:
            name = self.style('text', self.props([f]))
        return f'<text:span text:style-name="{name}">{inner}</text:span>'

    def chars(self, x, start):
        """Escaped text; start: nothing but blanks before it in the paragraph."""
        out = []
        for i, part in enumerate(re.split('(\t|\n)', x)):
            if part == '\t':
                out.append('<text:tab/>')
                start = True
            elif part == '\n':
                out.append('<text:line-break/>')
                start = True
            elif self.r is None:
                out.append(escape(part))
            else:
                for s in re.split('( +)', part):
                    if s.startswith(' '):
                        if start:
                            out.append(self.blanks(len(s)))
                        elif len(s) > 1 or self.chance(0.03):
                            out.append(' ' + self.blanks(len(s) - 1))
                        else:
                            out.append(s)
                    elif s:
                        out.append(escape(s))
                        start = False
        return ''.join(out)

    def blanks(self, n):
        if n <= 0:
            return ''
        return '<text:s/>' if n == 1 else f'<text:s text:c="{n}"/>'

    def runs(self, runs):
        out = []
        start = True
        for i, r in enumerate(runs):
            if r['t'] == 't':
                x = r['x']
                last = i == len(runs) - 1
                pieces = [x]
                if len(x) > 1 and 'ScID' not in x and self.chance(0.15):
                    k = self.r.randrange(1, len(x))
                    pieces = [x[:k], x[k:]]
                for n, p in enumerate(pieces):
                    y = self.chars(p, start)
                    if self.r is not None and last and n == len(pieces) - 1 and y.endswith(' '):
                        y = y[:-1] + '<text:s/>'
                    out.append(self.spanned(y, r['f']))
                    start = start and not p.strip(' ') or p[-1:] in ' \t\n'
                    if self.chance(0.04):
                        self.marks += 1
                        out.append(self.r.choice([f'<text:bookmark text:name="b{self.marks}"/>', '<text:soft-page-break/>', '<text:span text:style-name="T99"/>']))
            elif r['t'] == 'c':
                out.append('<office:annotation' + (f' office:name="__Annotation__{len(out)}"' if self.chance(0.5) else '') + '>'
                           f'<dc:creator>{escape(r["x"])}</dc:creator><dc:date>2024-01-01T00:00:00</dc:date>'
                           + ''.join(f'<text:p>{self.inner(p)}</text:p>' for p in r['p']) + '</office:annotation>')
                start = False
            elif r['t'] == 'n':
                self.notes += 1
                cls, cit = r['x'].split(' ', 1)
                out.append(f'<text:note text:id="ftn{self.notes}" text:note-class="{cls}"><text:note-citation>{escape(cit)}</text:note-citation><text:note-body>'
                           + ''.join(f'<text:p text:style-name="{cls.capitalize()}">{self.inner(p)}</text:p>' for p in r['p']) + '</text:note-body></text:note>')
                start = False
        return ''.join(out)

    def inner(self, p):
        x = self.runs(p['r'])
        if self.chance(0.3) and '<' not in x and x:
            x = f'<text:span text:style-name={quoteattr(self.style("text", ' fo:font-size="10pt"'))}>{x}</text:span>'
        return x

    def paragraph(self, b):
        name = b['s'] or 'Text_20_body'
        runs = b['r']
        texts = [r for r in runs if r['t'] == 't']
        common = [f for f in (texts[0]['f'] if texts else []) if all(f in r['f'] for r in texts)]
        if b['k'] in ('p', 'li') and common and self.chance(0.4) and not name.startswith('Heading'):
            # what holds for the whole paragraph can be in the paragraph style
            lift = [f for f in common if self.chance(0.7)]
            if lift:
                name = self.style('paragraph', self.props(lift), name)
                runs = [dict(r, f=[f for f in r['f'] if f not in lift]) if r['t'] == 't' else r for r in runs]
        elif self.chance(0.2):
            name = self.style('paragraph', self.r.choice(['', ' loext:x="1"']), name)
        x = self.runs(runs)
        m = re.match(r'h(\d)', b['k'])
        if m:
            if b['s'][-1:] == m.group(1) and self.chance(0.08):
                # a paragraph that looks like a heading
                return f'<text:p text:style-name={quoteattr(name)}>{x}</text:p>'
            return f'<text:h text:style-name={quoteattr(name)} text:outline-level="{m.group(1)}">{x}</text:h>'
        return f'<text:p text:style-name={quoteattr(name)}>{x}</text:p>'

    def body(self, blocks):
        out = []
        for b in blocks:
            if b['k'] == 'sec':
                out.append(f'<text:section text:style-name="Sect1" text:name={quoteattr(b["s"])}>')
            elif b['k'] == 'end':
                out.append('</text:section>')
            elif b['k'] == 'li':
                item = f'<text:list-item>{self.paragraph(b)}</text:list-item>'
                if out and out[-1].endswith('</text:list>') and not self.chance(0.3):
                    out[-1] = out[-1][:-len('</text:list>')] + item + '</text:list>'
                else:
                    out.append(f'<text:list text:style-name="L1">{item}</text:list>')
            else:
                out.append(self.paragraph(b))
        return out

    def content(self, blocks):
        body = self.body(blocks)
        pre = ''
        if self.chance(0.7):
            pre += '<text:sequence-decls><text:sequence-decl text:display-outline-level="0" text:name="Table"/></text:sequence-decls>'
        sep = '\n' if self.chance(0.3) else ''
        autos = ''.join(f'<style:style style:name="{n}" style:family="{fam}"' + (f' style:parent-style-name={quoteattr(parent)}' if parent else '')
                        + (f'><style:text-properties{props}/></style:style>' if props else '/>') for (fam, props, parent), n in self.auto.items())
        return (HEAD + f'<office:document-content {NSDECL} office:version="1.2"><office:scripts/><office:font-face-decls/>'
                f'<office:automatic-styles>{autos}<style:style style:name="Sect1" style:family="section"/></office:automatic-styles>'
                f'<office:body><office:text>{pre}{sep.join(body)}</office:text></office:body></office:document-content>')


def styles_xml(meta, r=None):
    tp = ''
    if meta.get('lang'):
        tp += f' fo:language={quoteattr(meta["lang"])}'
        tp += f' fo:country={quoteattr(meta.get("country") or "none")}'
    default = f'<style:default-style style:family="paragraph"><style:text-properties{tp}/></style:default-style>'
    if r is not None and not tp and r.random() < 0.3:
        # nothing is said about the language
        default = r.choice(['', '<style:default-style style:family="paragraph"><style:paragraph-properties/></style:default-style>'])
    return (HEAD + f'<office:document-styles {NSDECL} office:version="1.2"><office:styles>'
            '<style:default-style style:family="graphic"><style:text-properties fo:language="xx" fo:country="YY"/></style:default-style>'
            + default +
            '<style:style style:name="Emphasis" style:family="text"><style:text-properties fo:font-style="italic"/></style:style>'
            '<style:style style:name="Strong_20_Emphasis" style:display-name="Strong Emphasis" style:family="text"><style:text-properties fo:font-weight="bold"/></style:style>'
            '<style:style style:name="Quotations" style:family="paragraph"/></office:styles></office:document-styles>')


def meta_xml(meta):
    return (HEAD + f'<office:document-meta {NSDECL} office:version="1.2"><office:meta>'
            + (f'<dc:title>{escape(meta["title"])}</dc:title>' if meta.get('title') else '')
            + (f'<dc:description>{escape(meta["desc"])}</dc:description>' if meta.get('desc') else '')
            + (f'<meta:initial-creator>{escape(meta["author"])}</meta:initial-creator>' if meta.get('author') else '')
            + '<meta:creation-date>2024-01-01T00:00:00</meta:creation-date></office:meta></office:document-meta>')


def pack(path, mime, content, meta, drop=(), r=None):
    with zipfile.ZipFile(path, 'w') as z:
        z.writestr('mimetype', mime)
        for name, data in (('content.xml', content), ('styles.xml', styles_xml(meta, r)), ('meta.xml', meta_xml(meta)), ('META-INF/manifest.xml', MANIFEST.format(mime=mime))):
            if name not in drop:
                z.writestr(name, data, zipfile.ZIP_DEFLATED)


def write_odt(path, blocks, meta, r=None, drop=()):
    pack(path, 'application/vnd.oasis.opendocument.text', Writer(r).content(blocks), meta, drop, r)


def sheet_xml(rows, r=None):
    """Rows of {'x', 'a', 'v', 'y'} cells; equal neighbours may be written once with a repetition."""
    w = Writer(r)
    out = []
    for row in rows:
        cells = []
        i = 0
        while i < len(row):
            c = row[i]
            n = 1
            while r is not None and i + n < len(row) and row[i + n] == c and (c['x'] == '' or w.chance(0.5)) and i > 0:
                n += 1
            rep = f' table:number-columns-repeated="{n}"' if n > 1 else ''
            typ = ' office:value-type="string"'
            if c.get('y') == 'float' and re.fullmatch(r'\d+', c['x']):
                typ = f' office:value-type="float" office:value="{c["x"]}"'
            if c.get('a'):
                href, label = c['a'], c['x']
                cells.append(f'<table:table-cell{typ}{rep}><text:p><text:a xlink:href={quoteattr(href)}>{escape(label)}</text:a></text:p></table:table-cell>')
            elif c['x'] == '':
                cells.append(f'<table:table-cell{rep}/>')
            else:
                cells.append(f'<table:table-cell{typ}{rep}>' + w.cellpars(c['x'].split('\n')) + '</table:table-cell>')
            i += n
        if r is not None and w.chance(0.7):
            cells.append(f'<table:table-cell table:number-columns-repeated="{1024 - len(row)}"/>')
        out.append('<table:table-row>' + ''.join(cells) + '</table:table-row>')
    if r is not None and w.chance(0.7):
        out.append('<table:table-row table:number-rows-repeated="1048550"><table:table-cell table:number-columns-repeated="1024"/></table:table-row>')
    cols = '<table:table-column table:number-columns-repeated="1024"/>' if r is not None else '<table:table-column/>'
    return (HEAD + f'<office:document-content {NSDECL} office:version="1.2"><office:automatic-styles/><office:body><office:spreadsheet>'
            f'<table:table table:name="Tab">{cols}' + ''.join(out) + '</table:table></office:spreadsheet></office:body></office:document-content>')


def write_ods(path, rows, meta, r=None):
    pack(path, 'application/vnd.oasis.opendocument.spreadsheet', sheet_xml(rows, r), meta)
