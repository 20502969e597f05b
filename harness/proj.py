"""Projections between the program's objects, XML files, and the values the specification talks about."""
import xml.etree.ElementTree as ET

NULL = '\\N'


def v(x):
    """Scalar attribute -> string."""
    if x is None:
        return NULL
    if x is True:
        return 'T'
    if x is False:
        return 'F'
    return str(x)


def lst(x):
    if x is None:
        return [NULL]
    return [v(e) for e in x]


def scene(scId, s):
    return {'id': scId, 'title': v(s.title), 'desc': v(s.desc), 'content': v(s.sceneContent), 'typ': v(s.scType),
            'dne': v(s.doNotExport), 'status': v(s.status), 'notes': v(s.notes), 'tags': lst(s.tags),
            'f1': v(s.field1), 'f2': v(s.field2), 'f3': v(s.field3), 'f4': v(s.field4),
            'app': v(s.appendToPrev), 'date': v(s.date), 'time': v(s.time), 'day': v(s.day),
            'ld': v(s.lastsDays), 'lh': v(s.lastsHours), 'lm': v(s.lastsMinutes),
            'react': v(s.isReactionScene), 'sub': v(s.isSubPlot), 'goal': v(s.goal), 'conf': v(s.conflict),
            'outc': v(s.outcome), 'img': v(s.image), 'chars': lst(s.characters), 'locs': lst(s.locations),
            'items': lst(s.items), 'arcs': v(s.scnArcs), 'mode': v(s.scnMode)}


def chapter(chId, c):
    return {'id': chId, 'title': v(c.title), 'desc': v(c.desc), 'lev': v(c.chLevel), 'typ': v(c.chType),
            'supT': v(bool(c.suppressChapterTitle)), 'supB': v(bool(c.suppressChapterBreak)),
            'trash': v(bool(c.isTrash)), 'scs': list(c.srtScenes)}


def element(i, w):
    return {'id': i, 'title': v(w.title), 'desc': v(w.desc), 'img': v(w.image), 'aka': v(w.aka), 'tags': lst(w.tags),
            'link': v(w.kwVar.get('Field_Link'))}


def character(i, w):
    d = element(i, w)
    d.update({'birth': v(w.kwVar.get('Field_BirthDate')), 'death': v(w.kwVar.get('Field_DeathDate')),
              'notes': v(w.notes), 'bio': v(w.bio), 'goals': v(w.goals), 'full': v(w.fullName),
              'major': v(bool(w.isMajor))})
    return d


def novel(n):
    return {'prj': {'title': v(n.title), 'desc': v(n.desc), 'author': v(n.authorName), 'bio': v(n.authorBio),
                    'f1': v(n.fieldTitle1), 'f2': v(n.fieldTitle2), 'f3': v(n.fieldTitle3), 'f4': v(n.fieldTitle4),
                    'wcs': v(n.wordCountStart), 'wt': v(n.wordTarget),
                    'lang': v(n.languageCode), 'country': v(n.countryCode), 'languages': lst(n.languages)},
            'crs': [character(i, n.characters[i]) for i in n.srtCharacters],
            'lcs': [element(i, n.locations[i]) for i in n.srtLocations],
            'its': [element(i, n.items[i]) for i in n.srtItems],
            'pns': [{'id': i, 'title': v(n.projectNotes[i].title), 'desc': v(n.projectNotes[i].desc)} for i in n.srtPrjNotes],
            'chs': [chapter(i, n.chapters[i]) for i in n.srtChapters],
            'scs': [scene(i, n.scenes[i]) for i in n.scenes]}


def tree(elem):
    """ElementTree element -> [g, x, k]; attributes become leading pseudo children."""
    kids = [{'g': '@' + a, 'x': v(val), 'k': []} for a, val in sorted(elem.attrib.items())]
    kids += [tree(c) for c in elem if isinstance(c.tag, str)]
    text = elem.text
    if len(elem):
        text = None
    return {'g': elem.tag, 'x': v(text if text != '' else None), 'k': kids}


def file_tree(path):
    """Parse a saved project independently of the code under test."""
    return tree(ET.parse(path).getroot())


NO_TREE = {'g': '', 'x': NULL, 'k': []}


# ---------------------------------------------------------------- values -> objects

def un(x):
    return None if x == NULL else x


def unl(x):
    return None if x == [NULL] else list(x)


def unb(x):
    return {NULL: None, 'T': True, 'F': False}[x]


def uni(x):
    return None if x == NULL else int(x)


def make_scene(d, s=None):
    from pywriter.model.scene import Scene
    s = s if s is not None else Scene()
    s.title, s.desc = un(d['title']), un(d['desc'])
    if d['content'] != NULL:
        s.sceneContent = d['content']
    s.scType, s.doNotExport, s.status = uni(d['typ']), unb(d['dne']), uni(d['status'])
    s.notes, s.tags = un(d['notes']), unl(d['tags'])
    s.field1, s.field2, s.field3, s.field4 = un(d['f1']), un(d['f2']), un(d['f3']), un(d['f4'])
    s.appendToPrev = unb(d['app'])
    s.date, s.time, s.day = un(d['date']), un(d['time']), un(d['day'])
    s.lastsDays, s.lastsHours, s.lastsMinutes = un(d['ld']), un(d['lh']), un(d['lm'])
    s.isReactionScene, s.isSubPlot = unb(d['react']), unb(d['sub'])
    s.goal, s.conflict, s.outcome, s.image = un(d['goal']), un(d['conf']), un(d['outc']), un(d['img'])
    s.characters, s.locations, s.items = unl(d['chars']), unl(d['locs']), unl(d['items'])
    s.scnArcs, s.scnMode = un(d['arcs']), uni(d['mode'])
    return s


def make_chapter(d, c=None):
    from pywriter.model.chapter import Chapter
    c = c if c is not None else Chapter()
    c.title, c.desc, c.chLevel, c.chType = un(d['title']), un(d['desc']), uni(d['lev']), uni(d['typ'])
    c.suppressChapterTitle, c.suppressChapterBreak, c.isTrash = unb(d['supT']), unb(d['supB']), unb(d['trash'])
    c.srtScenes = list(d['scs'])
    return c


def make_element(d, w=None):
    from pywriter.model.world_element import WorldElement
    w = w if w is not None else WorldElement()
    w.title, w.desc, w.image, w.aka, w.tags = un(d['title']), un(d['desc']), un(d['img']), un(d['aka']), unl(d['tags'])
    w.kwVar['Field_Link'] = un(d['link'])
    return w


def make_character(d, w=None):
    from pywriter.model.character import Character
    w = w if w is not None else Character()
    make_element(d, w)
    w.kwVar['Field_BirthDate'], w.kwVar['Field_DeathDate'] = un(d['birth']), un(d['death'])
    w.notes, w.bio, w.goals, w.fullName, w.isMajor = un(d['notes']), un(d['bio']), un(d['goals']), un(d['full']), unb(d['major'])
    return w


def fill_novel(d, n):
    """Make the Novel object n hold exactly the project d."""
    from pywriter.model.basic_element import BasicElement
    p = d['prj']
    n.title, n.desc, n.authorName, n.authorBio = un(p['title']), un(p['desc']), un(p['author']), un(p['bio'])
    n.fieldTitle1, n.fieldTitle2, n.fieldTitle3, n.fieldTitle4 = un(p['f1']), un(p['f2']), un(p['f3']), un(p['f4'])
    n.wordCountStart, n.wordTarget = uni(p['wcs']), uni(p['wt'])
    n.languageCode, n.countryCode, n.languages = un(p['lang']), un(p['country']), unl(p['languages'])
    old = n.characters
    n.characters = {e['id']: make_character(e, old.get(e['id'])) for e in d['crs']}
    n.srtCharacters = [e['id'] for e in d['crs']]
    old = n.locations
    n.locations = {e['id']: make_element(e, old.get(e['id'])) for e in d['lcs']}
    n.srtLocations = [e['id'] for e in d['lcs']]
    old = n.items
    n.items = {e['id']: make_element(e, old.get(e['id'])) for e in d['its']}
    n.srtItems = [e['id'] for e in d['its']]
    n.projectNotes, n.srtPrjNotes = {}, []
    for e in d['pns']:
        n.projectNotes[e['id']] = BasicElement()
        n.projectNotes[e['id']].title, n.projectNotes[e['id']].desc = un(e['title']), un(e['desc'])
        n.srtPrjNotes.append(e['id'])
    old = n.scenes
    n.scenes = {e['id']: make_scene(e, old.get(e['id'])) for e in d['scs']}
    old = n.chapters
    n.chapters = {e['id']: make_chapter(e, old.get(e['id'])) for e in d['chs']}
    n.srtChapters = [e['id'] for e in d['chs']]
    return n


def make_novel(d):
    from pywriter.model.novel import Novel
    return fill_novel(d, Novel())
