"""Recorded language histories on systems of any locale (run as a program, in the environment in question)."""
import json
import os
import subprocess
import sys

import gen
import h_codec
import h_export
import h_yw7
import proj
import pw
from gen import E

NULL = proj.NULL
KINDS = h_export.KINDS


def scene_el(text):
    return E('SCENE', None, E('ID', '1'), E('Title', 'S'), E('SceneContent', text))


def start(path, g, root, text):
    k = [h_codec.to_e(c) for c in root['k']]
    at = next(i for i, c in enumerate(root['k']) if c['g'] == 'PROJECT')
    more = [E('LOCATIONS'), E('ITEMS'), E('CHARACTERS')]
    tail = [E('SCENES', None, scene_el(text)), E('CHAPTERS', None, E('CHAPTER', None, E('ID', '1'), E('Title', 'C'), E('Scenes', None, E('ScID', '1'))))]
    tree = E('YWRITER7', None, *k[:at + 1], *more, *k[at + 1:], *tail)
    with open(path, 'wb') as f:
        f.write(('<?xml version="1.0" encoding="utf-8"?>' + gen.serialize(g, tree)).encode('utf-8'))


def documents(g, h, n):
    """Documents made from the open project; the project goes on as it is."""
    ev = []
    for __ in range(n):
        kind = g.pick(KINDS)
        path = os.path.join(os.getcwd(), f'p{kind}{".ods" if kind in h_export.SHEETS else ".odt"}')
        before = proj.novel(h.file.novel)
        res = pw.outcome(lambda: h_export.target(kind, path, h.file.novel).write())
        after = proj.novel(h.file.novel)
        ev.append(h_export.record(kind, 'p', before, path, res, after))
        h.ev.append({'ev': 'edit', 'novel': after})
        if os.path.exists(path):
            os.remove(path)
    return ev


def case(g, path, c):
    """One case of the model: load, change, document, save, load, save."""
    start(path, g, c['root'], c['text'])
    h = h_yw7.History(path)
    docs = []
    if h.load():
        d = proj.novel(h.file.novel)
        if [c['lang'], c['country']] != ['', '']:
            d['prj']['lang'], d['prj']['country'] = c['lang'], c['country']
        if c['forget']:
            d['prj']['languages'] = [NULL]
        h.edit(d)
        docs += documents(g, h, g.pick([0, 0, 1]))
        if h.save():
            docs += documents(g, h, g.pick([0, 1]))
            if h.load() and h.save():
                h.load()
    return h.ev, docs


TAGS = ['[lang=de-DE]', '[/lang=de-DE]', '[lang=fr]', '[/lang=fr]', '[lang=en-GB]', '[/lang=en-GB]', '[lang=pt-BR]', '[/lang=pt-BR]']


def text(g):
    parts = [g.pick(TAGS) if g.chance(0.6) else g.pick(['ein', 'word ', '\n', 'z', '[i]', '[/i]', 'x y']) for __ in range(g.r.randint(1, 7))]
    return h_export.sane(f'a{"".join(parts)}z')


def history(g, path):
    """The author writes in several languages, changes the document language, makes documents, saves, and comes back."""
    h = h_yw7.History(path)
    docs, ok, tidy = [], True, g.chance(0.5)
    if tidy:
        d = gen.project(g, 2, 0.3, h_export.plain)
        for s in d['scs']:
            s['content'] = text(g)
        if g.chance(0.3):
            d['prj']['languages'] = g.pick([['de-DE'], ['fr', 'en-GB'], ['it-IT']])
        h.new(d)
        ok = h.save()
    else:
        with open(path, 'wb') as f:
            f.write(gen.xml_text(g, gen.xml_project(g, 2)))
        ok = h.load()
    for __ in range(g.r.randint(1, 5)):
        if not ok:
            break
        k = g.r.randrange(5)
        if k < 2:
            d = proj.novel(h.file.novel)
            for s in d['scs']:
                if g.chance(0.5):
                    s['content'] = text(g)
            if g.chance(0.3):
                d['prj']['lang'], d['prj']['country'] = g.pick([('de', 'CH'), ('pt', NULL), (NULL, NULL), ('', ''), ('fr', 'CA'), ('zxx', 'none'), ('xyz', 'DE')])
            if g.chance(0.2):
                d['prj']['languages'] = g.pick([[NULL], [], ['de-DE']])
            h.edit(d)
        elif k == 2:
            d = proj.novel(h.file.novel)
            for s in d['scs']:
                s['content'] = text(g) if g.chance(0.5) else s['content'] if s['content'] == NULL else h_export.sane(s['content'])
            h.edit(d)
            docs += documents(g, h, 1) if tidy else []
        elif k == 3:
            ok = h.save()
        else:
            ok = h.save() and h.load()
    ok and h.save() and h.load()
    return h.ev, docs


def main():
    job = json.load(sys.stdin)
    g = gen.Gen(job['seed'])
    out = []
    for i, c in enumerate(job['cases']):
        path = os.path.join(os.getcwd(), f'l{i}.yw7')
        ev, docs = case(g, path, c) if c else history(g, path)
        for p in (path, path + '.bak'):
            if os.path.exists(p):
                os.remove(p)
        out.append({'ev': ev, 'docs': docs})
    json.dump(out, sys.stdout)


def run(job):
    """Run the cases of this job where the system has this locale."""
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR', 'PYTHONHASHSEED', 'PYTHONDONTWRITEBYTECODE', 'PYTHONNOUSERSITE')}
    env['PYTHONPATH'] = pw.SRC + os.pathsep + os.path.dirname(os.path.abspath(__file__))
    env['PYTHONIOENCODING'] = 'utf-8'
    env['PYTHONCOERCECLOCALE'] = '0'  # locales that are not installed here are still named to the program
    if job['env']:
        env[job.get('by', 'LC_ALL')] = job['env']
    r = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__)], input=json.dumps(job), env=env, capture_output=True, encoding='utf-8')
    if r.returncode:
        # not even started: reported as such
        why = r.stderr.strip().splitlines()[-1:] or ['']
        return {'seed': job['seed'], 'env': job['env'], 'ev': [{'ev': 'load', 'out': 'exc', 'msg': f'on a system with locale "{job["env"]}": {why[0]}', 'tree': proj.NO_TREE, 'novel': {}}], 'cases': []}
    return {'seed': job['seed'], 'env': job['env'], 'cases': json.loads(r.stdout)}


if __name__ == '__main__':
    main()
