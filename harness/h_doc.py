"""OpenDocument files as values: an independent reader of the documents the program writes."""
import io
import os
import re
import urllib.parse
import xml.etree.ElementTree as ET
import zipfile

NS = {'office': 'urn:oasis:names:tc:opendocument:xmlns:office:1.0', 'style': 'urn:oasis:names:tc:opendocument:xmlns:style:1.0',
      'text': 'urn:oasis:names:tc:opendocument:xmlns:text:1.0', 'table': 'urn:oasis:names:tc:opendocument:xmlns:table:1.0',
      'fo': 'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0', 'xlink': 'http://www.w3.org/1999/xlink',
      'dc': 'http://purl.org/dc/elements/1.1/', 'meta': 'urn:oasis:names:tc:opendocument:xmlns:meta:1.0',
      'manifest': 'urn:oasis:names:tc:opendocument:xmlns:manifest:1.0'}


def q(name):
    p, t = name.split(':')
    return f'{{{NS[p]}}}{t}'


def short(tag):
    for p, uri in NS.items():
        if tag.startswith('{' + uri + '}'):
            return f'{p}:{tag[len(uri) + 2:]}'
    return tag


class Styles:
    """What the styles of a document do to text."""

    def __init__(self, *roots):
        self.italic, self.bold, self.lang, self.parent = {'Emphasis'}, {'Strong_20_Emphasis'}, {}, {}
        self.auto = set()
        for root in roots:
            for container in ('office:automatic-styles', 'office:styles'):
                for box in root.iter(q(container)):
                    for st in box.iter(q('style:style')):
                        name = st.get(q('style:name'))
                        if container == 'office:automatic-styles':
                            self.auto.add(name)
                        self.parent[name] = st.get(q('style:parent-style-name'))
                        for tp in st.iter(q('style:text-properties')):
                            if st.get(q('style:family')) != 'text' and container != 'office:automatic-styles':
                                continue
                            if tp.get(q('fo:font-style')) == 'italic':
                                self.italic.add(name)
                            if tp.get(q('fo:font-weight')) == 'bold':
                                self.bold.add(name)
                            lang = tp.get(q('fo:language'))
                            if lang:
                                ctr = tp.get(q('fo:country'))
                                self.lang[name] = lang if ctr in (None, 'none') else f'{lang}-{ctr}'

    def para(self, name):
        """A paragraph style made for this document counts as the style it is derived from."""
        return self.parent.get(name) or name if name in self.auto else name


def formats(state):
    b, i, lang = state
    return (['b'] if b else []) + (['i'] if i else []) + (['lang=' + lang] if lang else [])


def add(runs, x, f, a):
    if not x:
        return
    if runs and runs[-1]['t'] == 't' and runs[-1]['f'] == f and runs[-1]['a'] == a:
        runs[-1]['x'] += x
    else:
        runs.append({'t': 't', 'x': x, 'f': f, 'a': a, 'p': []})


def inline(elem, styles, state, link, runs):
    add(runs, elem.text, formats(state), link)
    for e in elem:
        tag = short(e.tag) if isinstance(e.tag, str) else ''
        if tag == 'text:span':
            name = e.get(q('text:style-name'))
            st = (state[0] or name in styles.bold, state[1] or name in styles.italic, styles.lang.get(name, state[2]))
            inline(e, styles, st, link, runs)
        elif tag == 'text:a':
            inline(e, styles, state, urllib.parse.unquote(e.get(q('xlink:href'), '')), runs)
        elif tag == 'text:s':
            add(runs, ' ' * int(e.get(q('text:c'), '1')), formats(state), link)
        elif tag == 'text:tab':
            add(runs, '\t', formats(state), link)
        elif tag == 'text:line-break':
            add(runs, '\ue0ff', formats(state), link)
        elif tag == 'office:annotation':
            author = ''.join(e.findtext(q('dc:creator')) or '')
            runs.append({'t': 'c', 'x': author, 'f': [], 'a': '', 'p': paras(e.findall(q('text:p')), styles)})
        elif tag == 'text:note':
            cit = e.find(q('text:note-citation'))
            body = e.find(q('text:note-body'))
            runs.append({'t': 'n', 'x': f'{e.get(q("text:note-class"))} {cit.get(q("text:label")) or cit.text}', 'f': [], 'a': '',
                         'p': paras(body.findall(q('text:p')), styles)})
        elif tag in ('text:bookmark', 'text:bookmark-start', 'text:bookmark-end', 'text:soft-page-break', 'office:annotation-end'):
            pass
        else:
            runs.append({'t': tag, 'x': '', 'f': [], 'a': '', 'p': []})
        add(runs, e.tail, formats(state), link)


def paras(elems, styles):
    out = []
    for e in elems:
        runs = []
        inline(e, styles, (False, False, None), '', runs)
        out.append({'s': styles.para(e.get(q('text:style-name')) or ''), 'r': broken(runs)})
    return out


def tidy(runs):
    """Line breaks of the XML source at the ends of a paragraph are layout."""
    edge = False
    while runs and runs[0]['t'] == 't' and runs[0]['x'].lstrip('\n') != runs[0]['x']:
        runs[0]['x'] = runs[0]['x'].lstrip()
        edge = True
        if not runs[0]['x']:
            runs.pop(0)
    while runs and runs[-1]['t'] == 't' and runs[-1]['x'].rstrip('\n') != runs[-1]['x']:
        runs[-1]['x'] = runs[-1]['x'].rstrip()
        if not runs[-1]['x']:
            runs.pop()
    return broken(runs)


def broken(runs):
    """Line breaks that belong to the text."""
    for r in runs:
        r['x'] = r['x'].replace('\ue0ff', '\n')
    return runs


def walk(elem, styles, out, stray, item=False):
    if elem.text and elem.text.strip():
        stray.append(elem.text.strip())
    for e in elem:
        tag = short(e.tag) if isinstance(e.tag, str) else ''
        if tag == 'text:section':
            out.append({'k': 'sec', 's': e.get(q('text:name')) or '', 'r': []})
            walk(e, styles, out, stray)
            out.append({'k': 'end', 's': '', 'r': []})
        elif tag in ('text:h', 'text:p'):
            runs = []
            name = e.get(q('text:style-name')) or ''
            lang = styles.lang.get(name) if name in styles.auto else None
            state = (name in styles.auto and name in styles.bold, name in styles.auto and name in styles.italic, lang)
            inline(e, styles, state, '', runs)
            k = ('li' if item else 'p') if tag == 'text:p' else 'h' + (e.get(q('text:outline-level')) or '1')
            out.append({'k': k, 's': styles.para(name), 'r': tidy(runs)})
        elif tag in ('text:list', 'text:list-item', 'text:list-header'):
            walk(e, styles, out, stray, tag != 'text:list')
        elif tag in ('text:sequence-decls', 'office:forms', 'text:soft-page-break', 'text:tracked-changes'):
            pass
        else:
            out.append({'k': tag, 's': '', 'r': []})
        if e.tail and e.tail.strip():
            stray.append(e.tail.strip())
    return out


def cells(row):
    out = []
    for c in row:
        if not isinstance(c.tag, str) or short(c.tag) not in ('table:table-cell', 'table:covered-table-cell'):
            continue
        n = int(c.get(q('table:number-columns-repeated'), '1'))
        texts = []
        for p in c.findall(q('text:p')):
            runs = []
            inline(p, Styles(), (False, False, None), '', runs)
            texts.append(''.join(r['x'] for r in broken(runs)))
        link = ''
        f = c.get(q('table:formula'))
        if f:
            m = re.match(r'of:=HYPERLINK\("(.*?)";"(.*?)"\)$', f, re.DOTALL)
            link = urllib.parse.unquote(m.group(1)) if m else 'formula ' + f
        for a in c.iter(q('text:a')):
            link = urllib.parse.unquote(a.get(q('xlink:href'), ''))
        cell = {'x': '\n'.join(texts), 'a': link, 'v': c.get(q('office:value')) or '', 'y': c.get(q('office:value-type')) or ''}
        if n > 50 and cell['x'] == '':
            break
        out.extend([cell] * n)
    while out and out[-1]['x'] == '' and out[-1]['a'] == '':
        out.pop()
    return out


def rows(content):
    out = []
    for table in content.iter(q('table:table')):
        for row in table.iter(q('table:table-row')):
            n = int(row.get(q('table:number-rows-repeated'), '1'))
            c = cells(row)
            if n > 50 and not c:
                continue
            out.extend([c] * n)
    while out and not out[-1]:
        out.pop()
    return out


def package(path, bare=False):
    """Everything there is to say about a document package. Raises if it is no well-formed package.

    A bare one need not describe itself.
    """
    with zipfile.ZipFile(path) as z:
        if z.testzip() is not None:
            raise ValueError('damaged package')
        names = z.namelist()
        parts = {n: z.read(n) for n in names}
    roots = {n: ET.fromstring(d) for n, d in parts.items() if n.endswith(('.xml', '.rdf'))}
    listed = [e.get(q('manifest:full-path')) for e in roots['META-INF/manifest.xml'].iter(q('manifest:file-entry'))]
    types = {e.get(q('manifest:full-path')): e.get(q('manifest:media-type')) for e in roots['META-INF/manifest.xml'].iter(q('manifest:file-entry'))}
    meta = roots['meta.xml'].find(q('office:meta')) if 'meta.xml' in roots or not bare else None

    def m(tag):
        return (meta.findtext(q(tag)) if meta is not None else None) or ''

    lang = country = ''
    for ds in roots['styles.xml'].iter(q('style:default-style')):
        if ds.get(q('style:family')) in ('paragraph', 'table-cell'):
            for tp in ds.iter(q('style:text-properties')):
                if not lang:
                    lang, country = tp.get(q('fo:language')) or '', tp.get(q('fo:country')) or ''
    content = roots['content.xml']
    body = list(content.find(q('office:body')))
    pkg = {'first': names[0] if names else '', 'mime': parts.get('mimetype', b'').decode('utf-8', 'replace'),
           'root': types.get('/') or '', 'names': sorted(set(names)), 'dups': len(names) - len(set(names)),
           'listed': sorted(x for x in listed if x != '/'), 'body': short(body[0].tag) if body else '',
           'dated': bool(re.match(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', m('meta:creation-date'))),
           'meta': {'title': m('dc:title'), 'author': m('meta:initial-creator'), 'desc': m('dc:description'), 'lang': lang, 'country': country}}
    return pkg, roots


def document(path, bare=False):
    """-> (pkg, blocks, rows, stray)"""
    pkg, roots = package(path, bare)
    content = roots['content.xml']
    stray = []
    blocks = []
    for body in content.iter(q('office:text')):
        blocks = walk(body, Styles(content, roots['styles.xml']), [], stray)
    return pkg, blocks, rows(content), stray
