"""C16: producing a document never harms the previous one and leaves no debris."""
import gc
import hashlib
import json
import os
import random
import re
import shutil
import zipfile

import c04
import h_fault
import h_yw7
import pw
import yw7_common as yc

SUFFIXES = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations',
            '_charlist', '_loclist', '_itemlist', '_scenelist', '_xref', '_notes', '_todo']


def key(path):
    """Identify a document on disk: its parts without the date, 'none', or 'bad'."""
    if not os.path.exists(path):
        return 'none'
    try:
        with zipfile.ZipFile(path) as z:
            if z.testzip() is not None:
                return 'bad'
            names = sorted(z.namelist())
            if not {'content.xml', 'mimetype', 'META-INF/manifest.xml', 'styles.xml', 'meta.xml'} <= set(names):
                return 'bad'
            wd = os.path.dirname(path)
            parts = {n: z.read(n).decode('utf-8').replace(wd, 'WD').replace(wd.replace('/', '%2F'), 'WD') for n in names}
            parts['meta.xml'] = re.sub(r'\d\d\d\d-\d\d-\d\dT\d\d:\d\d:\d\d', 'DATE', parts['meta.xml'])
            return hashlib.sha256(json.dumps(parts).encode()).hexdigest()
    except Exception:
        return 'bad'


def run_one(job):
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    base = os.getcwd()
    wd = os.path.join(base, 'job')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(os.path.join(wd, 'tmp'))
    s, seed = job['setup'], job['seed']
    path = os.path.join(wd, 'p.yw7')
    given = os.path.relpath(path, base) if s.get('rel') else path
    ext = '.ods' if s['suffix'].endswith('list') else '.odt'
    doc = os.path.join(wd, f'p{s["suffix"]}{ext}')
    import tempfile
    tempfile.tempdir = os.path.join(wd, 'tmp')

    kept = []

    def again():
        """Write with the same document object as the last time."""
        if not kept:
            from pywriter.converter.export_target_factory import ExportTargetFactory
            kept.append(ExportTargetFactory(Yw7Converter.EXPORT_TARGET_CLASSES).make_file_objects(given, suffix=s['suffix'])[1])
        project = Yw7File(given)
        project.novel = Novel()
        project.read()
        kept[0].novel = project.novel
        kept[0].write()
        return [kept[0].filePath, '']

    def conv():
        if s.get('same'):
            return again()
        c = Yw7Converter()
        c.ui = c04.Ui()
        c.run(given, suffix=s['suffix'])
        return [c.newFile, c.ui.told()]

    c04.write_new(path, c04.novel(seed))
    if s['bak'] == 'old':
        conv()
        os.replace(doc, doc + '.bak')
    c04.write_new(path, c04.novel(seed + 1))
    if s['main']:
        bak = doc + '.bak'
        keep = os.path.join(wd, 'keep')
        if os.path.exists(bak):
            os.replace(bak, keep)
        conv()
        if os.path.exists(keep):
            os.replace(keep, bak)
    acts = []
    for v in (2, 3):

        def act(v=v):
            h = before = None
            c04.write_new(path, c04.novel(seed + v))
            return None

        acts.append((act, {}))

        def exp():
            gc.collect()
            return conv()

        acts.append((exp, None))
    for name in os.listdir(os.path.join(wd, 'tmp')):
        shutil.rmtree(os.path.join(wd, 'tmp', name), ignore_errors=True)
    gc.collect()

    def snap():
        gc.collect()
        known = {'p.yw7', 'p.yw7.bak', os.path.basename(doc), os.path.basename(doc) + '.bak', 'tmp'}
        debris = sorted(n for n in os.listdir(wd) if n not in known) + sorted('tmp/' + n for n in os.listdir(os.path.join(wd, 'tmp')))
        try:
            cwd = 'same' if os.getcwd() == base else 'changed'
        except OSError:
            cwd = 'gone'
        return {'main': key(doc), 'bak': key(doc + '.bak'), 'debris': debris, 'cwd': cwd, 'project': h_yw7.digest(path)}

    steps, which = [], []
    for i, p in enumerate(job['plans']):
        steps.append(acts[2 * i])
        steps.append((acts[2 * i + 1][0], p))
    first = snap()
    res = h_fault.run(steps, snap, wd)
    shutil.rmtree(wd, ignore_errors=True)
    if 'labels' not in job:
        names = {}
        for i, r in enumerate([{'snap': first}] + res[1::2]):
            for k in ('bak', 'main'):
                if r['snap'][k] not in ('none', 'bad'):
                    names.setdefault(r['snap'][k], f'v{i}{k[0]}')
        return {'labels': names, 'ops': [r['ops'] for r in res[1::2]], 'outs': [r['out'] for r in res[1::2]],
                'want': [names.get(r['snap']['main'], 'bad') for r in res[1::2]]}
    lab = lambda k: k if k in ('none', 'bad') else job['labels'].get(k, 'bad')
    ev = [{'ev': 'start', 'main': lab(first['main']), 'bak': lab(first['bak'])}]
    for i in range(1, len(res), 2):
        r, p = res[i], job['plans'][i // 2]
        fired = r['out'] == 'crash' or r['hit'] is not None
        out, told = r['out'], ''
        if r['out'] == 'ok' and r['val']:
            new, told = r['val']
            out = 'ok' if new else 'Error'
        excused = out == 'crash' or s.get('same') and fired or p.get('kind') == 'fail*' or r['hit'] in ('remove', 'rmdir')
        ev.append({'ev': 'save', 'out': out, 'msg': '' if r['out'] == 'ok' else str(r['val']), 'want': job['want'][i // 2],
                   'main': lab(r['snap']['main']), 'bak': lab(r['snap']['bak']),
                   'fault': p.get('kind', 'none') if fired else 'none', 'persistent': p.get('kind') in ('fail*',), 'hit': str(r['hit']),
                   'locked': False, 'needs': False, 'told': told, 'debris': [] if excused else r['snap']['debris'],
                   'project': 'same' if r['snap']['project'] == res[i - 1]['snap']['project'] else 'changed',
                   'cwd': 'same' if out == 'crash' else r['snap']['cwd']})
    return {'seed': job['seed'], 'job': {k: job[k] for k in ('setup', 'plans')}, 'ev': ev}


def run():
    chk = pw.Check('C16', 'fault_enumeration')
    chk.add_tlc(pw.model_check('SaveProtocol', cfg='DocProtocol.cfg', min_states=50))
    rnd = random.Random(chk.seed)
    some = rnd.sample(SUFFIXES, 3) if not pw.THOROUGH else SUFFIXES
    setups = [{'suffix': x, 'main': True, 'bak': 'none'} for x in SUFFIXES]
    setups += [{'suffix': x, 'main': m, 'bak': b} for x in some for m, b in ((True, 'old'), (False, 'none'), (False, 'old'))]
    setups += [{'suffix': x, 'main': m, 'bak': 'none', 'same': True} for x in rnd.sample(SUFFIXES, pw.scale(3, 17)) for m in (True, False)]
    # documents that are addressed by a relative path
    setups += [{'suffix': x, 'main': True, 'bak': b, 'rel': True} for x in rnd.sample(SUFFIXES, pw.scale(3, 17)) for b in ('none', 'old')]
    setups += [{'suffix': x, 'main': True, 'bak': 'none', 'rel': True, 'same': True} for x in rnd.sample(SUFFIXES, pw.scale(1, 5))]
    refs = pw.parallel(run_one, [{'seed': chk.seed * 100, 'setup': s, 'plans': [{}, {}]} for s in setups])
    jobs = []
    for s, ref in zip(setups, refs):
        if '@crash' in ref:
            chk.violate('crash', ref['@crash'], s)
            continue
        base = {'seed': chk.seed * 100, 'setup': s, 'labels': ref['labels'], 'want': ref['want']}
        if ref['outs'][0] != 'ok' or ref['want'][0] == 'bad':
            chk.violate('failure-without-fault', f'{s}: {ref["outs"]}', s)
            continue
        one = h_fault.plans(ref['ops'][0], pw.scale((0, 700), (0, 1, 700, 3000)))
        pick = one if pw.THOROUGH or s['suffix'] in some[:1] else rnd.sample(one, min(16, len(one)))
        jobs.append(dict(base, plans=[{}, {}]))
        jobs += [dict(base, plans=[p]) for p in pick]
        pairs = [[p, q] for p in rnd.sample(one, min(10, len(one))) if p['kind'] in ('fail', 'full') for q in rnd.sample(one, min(6, len(one))) + [{}]]
        if s.get('same'):
            pairs = [[p, {}] for p in one if p['kind'] in ('fail', 'full')]
        jobs += [dict(base, plans=pq) for pq in rnd.sample(pairs, min(len(pairs), pw.scale(30 if s.get('same') else 8, 60)))]
    traces = pw.parallel(run_one, jobs, seconds=850)
    good = [t for t in traces if '@crash' not in t]
    chk.count(evaluations=len(good), distinct_nontrivial=len({json.dumps(t['job']) for t in good if any(e.get('fault') not in (None, 'none') for e in t['ev'])}))
    chk.cov['rule'] = ('one case = a document kind, with/without previous document and backup, and a fault plan for one or two exports; '
                       'non-trivial: a fault really hit an operation or killed the process')
    for t in good[5:8]:
        chk.sample({'job': t['job'], 'events': t['ev']})
    yc.run_traces(chk, traces, [''], module='JudgeSave')
    return chk.finish()
