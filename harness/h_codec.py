"""Replay of the cases enumerated by MC_Codec on real project files."""
import json
import os

import gen
import h_yw7
import proj
import pw
from gen import E

NULL = proj.NULL


def to_e(t):
    return E(t['g'], None if t['x'] == NULL else t['x'], *[to_e(k) for k in t['k']])


def with_id(t, i):
    k = [dict(c, x=i) if c['g'] == 'ID' else c for c in t['k']]
    return dict(t, k=k)


def replay(job):
    """job: {'seed', 'cases'}: one project holding all the cases, loaded, changed, saved, loaded."""
    g = gen.Gen(job['seed'])
    scenes, chapters, sets = [], [], {}
    for n, c in enumerate(job['cases'], 1):
        i = str(n)
        if c['what'] == 'chtype':
            el = with_id(c['e'], i)
            sc = E('SCENE', None, E('ID', i), E('Title', 'S' + i),
                   *g.pick([[], [E('Unused', '-1')], [E('Unused', '-1'), E('Fields', None, E('Field_SceneType', g.pick('012')))]]))
            scenes.append(sc)
            el['k'] = el['k'] + [{'g': 'Scenes', 'x': NULL, 'k': [{'g': 'ScID', 'x': i, 'k': []}]}]
            chapters.append(to_e(el))
        else:
            scenes.append(to_e(with_id(c['e'], i)))
        sets[i] = c
    root = E('YWRITER7', None, E('PROJECT', None, E('Ver', '7')), E('LOCATIONS'), E('ITEMS'), E('CHARACTERS'),
             E('SCENES', None, *scenes), E('CHAPTERS', None, *chapters))
    path = os.path.join(os.getcwd(), f'c{job["seed"]}.yw7')
    with open(path, 'wb') as f:
        f.write(('<?xml version="1.0" encoding="utf-8"?>' + gen.serialize(g, root)).encode('utf-8'))
    h = h_yw7.History(path)
    if h.load():
        d = proj.novel(h.file.novel)
        for s in d['scs']:
            c = sets[s['id']]
            if c['what'] == 'start':
                s.update(c['val'])
            elif c['what'] == 'sctype':
                s['typ'] = c['val']
            elif c['what'] == 'dne':
                s['dne'] = c['val']
        for s in d['chs']:
            s['typ'] = sets[s['id']]['val']
        h.edit(d)
        if h.save() and h.load() and h.save():
            h.load()
    os.remove(path)
    return {'seed': job['seed'], 'ev': h.ev}


def enumerate_cases(chk, kinds, limit=None, per=60):
    """Run the exhaustive model, return replay jobs for its cases of the given kinds."""
    out = os.path.join(pw.scratch(), 'codec.ndjson')
    res = pw.model_check('MC_Codec', env={'OUT': out}, min_states=7000)
    chk.add_tlc(res)
    with open(out, encoding='utf-8') as f:
        cases = [json.loads(line) for line in f]
    os.remove(out)
    cases = [c for c in cases if c['what'] in kinds]
    import random
    random.Random(chk.seed).shuffle(cases)
    chk.count(model_cases_replayed=len(cases))
    return [{'seed': k, 'cases': cases[k:k + per]} for k in range(0, len(cases), per)]
