"""C21: clean-up and reset functions."""
import os
import random

import gen
import h_export
import h_yw7
import proj
import pw
import yw7_common as yc

MARKS = ['[lang=de-DE]', '[/lang=de-DE]', '[lang=fr]', '[//lang=x]', '[lang=]', '[/lang]', '[lang=en-GB', ']', '[', '[/', '/lang=de]', '[i]', '[/i]',
         'lang=de', '[LANG=de-DE]', '[lang =de]', '[la', 'ng=fr-FR]', '\n', 'text', ' ', '[lang=es-ES]Hola[/lang=es-ES]', '/*', '*/', '> ']


def run_one(job):
    from pywriter.yw import yw7_purge
    g = gen.Gen(job['seed'])

    def text(multi=True):
        if multi and g.chance(0.6):
            t = gen.trim(''.join(g.pick(MARKS) if g.chance(0.8) else g.piece() for __ in range(g.r.randint(1, 12))))
            return f'a{t}z' if '\n' in t else t       # saving keeps no line breaks at the ends, where they might be left
        return g.text(multi)

    path = os.path.join(os.getcwd(), f'g{job["seed"]}.yw7')
    h = h_yw7.History(path)
    ok = True
    if g.chance(0.5):
        h.new(gen.project(g, text=text))
        ok = h.save() and (g.chance(0.3) or h.load())
    else:
        with open(path, 'wb') as f:
            f.write(gen.xml_text(g, gen.xml_project(g)))
        ok = h.load()
        if ok and g.chance(0.5):
            d = proj.novel(h.file.novel)
            for s in d['scs']:
                if g.chance(0.6):
                    s['content'] = text()
            h.edit(d)
    for __ in range(2):
        if not ok:
            break
        for kind in g.pick([['reset'], ['nolang'], ['reset', 'nolang'], ['nolang', 'reset']]):
            if kind == 'reset':
                out, ret = pw.outcome(yw7_purge.reset_custom_variables, h.file)
            else:
                out, ret = pw.outcome(yw7_purge.remove_language_tags, h.file.novel)
            h.ev.append({'ev': kind, 'out': out, 'ret': proj.v(bool(ret)), 'novel': proj.novel(h.file.novel)})
        done = 'reset' in [e['ev'] for e in h.ev]
        ok = h.save()
        if ok and done:
            h.ev.append({'ev': 'cleared'})
        ok = ok and h.load()
    ok = ok and h.save()
    if ok:
        h.load()
    for p in (path, path + '.bak'):
        if os.path.exists(p):
            os.remove(p)
    return {'seed': job['seed'], 'ev': h.ev}


def clear(path):
    for p in (path, path + '.bak'):
        if os.path.exists(p):
            os.remove(p)


def run_texts(job):
    """Remove the marks from the texts of MC_Purge."""
    from pywriter.yw import yw7_purge
    path = os.path.join(os.getcwd(), f'm{job["seed"]}.yw7')
    h = h_yw7.History(path)
    h.new(h_export.texts_project(gen.Gen(job['seed']), [f'a{t}z' for t in job['cases']]))
    out, ret = pw.outcome(yw7_purge.remove_language_tags, h.file.novel)
    h.ev.append({'ev': 'nolang', 'out': out, 'ret': proj.v(bool(ret)), 'novel': proj.novel(h.file.novel)})
    if job['seed'] % 10 == 0:
        h.save() and h.load()
    clear(path)
    return {'seed': job['seed'], 'ev': h.ev}


def run_custom(job):
    """Reset a combination of custom values of MC_Purge."""
    from pywriter.yw import yw7_purge
    ev = []
    path = os.path.join(os.getcwd(), f'v{job["seed"]}.yw7')
    h = h_yw7.History(path)
    g = gen.Gen(job['seed'])
    d = gen.project(g, 1, 0.3, h_export.plain)
    d['prj']['title'] = 'N'
    d['crs'], d['lcs'], d['its'] = d['crs'][:1], d['lcs'][:1], []
    c = job['case']
    for s in d['scs']:
        s.update({'arcs': proj.NULL, 'mode': proj.NULL, 'chars': [], 'locs': [], 'items': []})
    for s in d['scs'][:1]:
        s.update({'arcs': c['arcs'], 'mode': c['mode']})
    for e in d['crs']:
        e.update({'link': c['link'], 'birth': c['birth'], 'death': c['death']})
    for e in d['lcs']:
        e['link'] = c['place']
    h.new(d)
    ok = True
    if g.chance(0.5):
        ok = h.save() and h.load()
    out, ret = pw.outcome(yw7_purge.reset_custom_variables, h.file)
    h.ev.append({'ev': 'reset', 'out': out, 'ret': proj.v(bool(ret)), 'novel': proj.novel(h.file.novel)})
    if ok and h.save():
        h.ev.append({'ev': 'cleared'})
        h.load()
    clear(path)
    return {'seed': job['seed'], 'ev': h.ev}


def replay(chk):
    cases = h_export.model_cases(chk, 'MC_Purge', None, lines=False)
    texts, custom = cases['texts'], cases['custom']
    for l in (texts, custom):
        random.Random(chk.seed).shuffle(l)
    texts, custom = texts[:pw.scale(4000, None)], custom[:pw.scale(250, None)]
    chk.count(model_cases_replayed=len(texts) + len(custom))
    return (pw.parallel(run_texts, [{'seed': lo, 'cases': texts[lo:lo + 20]} for lo in range(0, len(texts), 20)])
            + pw.parallel(run_custom, [{'seed': k, 'case': c} for k, c in enumerate(custom)]))


def run():
    chk = pw.Check('C21', 'model_checking')
    traces = replay(chk)
    traces += pw.parallel(run_one, [{'seed': chk.seed * 1000003 + k} for k in range(pw.scale(250, 3000))])
    for t in traces[:2]:
        if 'ev' in t:
            chk.sample({'events': [e['ev'] for e in t['ev']]})
    yc.run_traces(chk, traces, [r'reset\.', r'nolang\.', r'(load|save)\.(outcome|sc\.content|sc\.arcs|sc\.mode|cr\.link|cr\.birth|cr\.death|lc\.link|it\.link)',
                                r'frame\.'])
    return chk.finish()
