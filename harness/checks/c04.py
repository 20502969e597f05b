"""C04: no failure, crash or lock makes a save lose the project."""
import json
import os
import random
import shutil
import zipfile

import gen
import h_fault
import proj
import pw
import yw7_common as yc


class Ui:
    """A user interface that agrees with everything and remembers what it is told."""

    def __init__(self):
        self.how = []
        self.warnings = []

    def set_info_what(self, m):
        pass

    def set_info_how(self, m):
        self.how.append(m)

    def ask_yes_no(self, m):
        return True

    def show_warning(self, m):
        self.warnings.append(m)

    def told(self):
        return 'nothing' if not self.how else 'failure' if self.how[-1].startswith('!') else 'success'


def words(g):
    return lambda multi=True: ' '.join(g.pick(['alpha', 'beta', 'gamma', 'delta', 'Zeile']) for __ in range(g.r.randint(1, 6)))


def novel(seed):
    g = gen.Gen(seed)
    d = gen.project(g, 3, text=words(g))
    d['prj']['title'] = f'Version {seed}'
    d['prj']['lang'], d['prj']['country'] = 'en', 'US'
    return d


def write_new(path, d):
    from pywriter.yw.yw7_file import Yw7File
    f = Yw7File(path)
    f.novel = proj.make_novel(d)
    f.write()


def key(path):
    """Identify what is on disk: the content of a complete project, 'none', or 'bad'."""
    if not os.path.exists(path):
        return 'none'
    try:
        t = proj.file_tree(path)
        if t['g'] != 'YWRITER7' or not any(k['g'] == 'CHAPTERS' for k in t['k']):
            return 'bad'
        return json.dumps(t)
    except Exception:
        return 'bad'


def make_steps(job, wd):
    """Set up the folder; return the actions [(callable, label wanted)]."""
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    s = job['setup']
    seed = job['seed']
    path = os.path.join(wd, 'p.yw7')
    if s['main']:
        write_new(path, novel(seed))
        if os.path.exists(path + '.bak'):
            os.remove(path + '.bak')
    if s['bak'] == 'old':
        write_new(os.path.join(wd, 'q.yw7'), novel(seed + 7))
        os.replace(os.path.join(wd, 'q.yw7'), path + '.bak')
    elif s['bak'] == 'bad':
        with open(path + '.bak', 'w') as f:
            f.write('<YWRITER7>')
    acts = []
    if s['what'] == 'save':
        f = Yw7File(path)
        if s['main']:
            f.novel = Novel()
            f.read()

        def saver(v):

            def act():
                if s['main']:
                    f.novel.title = f'Title {v}'
                    for i in f.novel.scenes:
                        f.novel.scenes[i].sceneContent = f'content {v}'
                else:
                    f.novel = proj.make_novel(novel(seed + v))
                f.write()

            return act

        acts = [saver(v) for v in (1, 2, 3)]
    else:
        from pywriter.converter.yw7_converter import Yw7Converter
        conv = Yw7Converter()
        if s['what'] == 'import':
            c = Yw7Converter()
            c.ui = Ui()
            c.run(path, suffix='_manuscript')
            doc = os.path.join(wd, 'p_manuscript.odt')
        else:
            src = os.path.join(wd, 'src.yw7')
            write_new(src, novel(seed + 3))
            c = Yw7Converter()
            c.ui = Ui()
            c.run(src, suffix='')
            os.remove(src)
            os.replace(os.path.join(wd, 'src.odt'), os.path.join(wd, 'p.odt'))
            doc = os.path.join(wd, 'p.odt')

        def act():
            conv.ui = Ui()
            conv.run(doc)
            return [conv.newFile, conv.ui.told()]

        acts = [act, act]
    return path, acts


def run_one(job):
    wd = os.path.join(os.getcwd(), 'job')
    shutil.rmtree(wd, ignore_errors=True)
    os.mkdir(wd)
    path, acts = make_steps(job, wd)
    if job.get('lock'):
        open(path + '.lock', 'w').close()
    snap = lambda: {'main': key(path), 'bak': key(path + '.bak')}
    labels = job.get('labels', {})
    lab = lambda k: k if k in ('none', 'bad') else labels.get(k, 'bad')
    first = snap()
    res = h_fault.run([(acts[i], p) for i, p in enumerate(job['plans'])], snap, wd)
    shutil.rmtree(wd, ignore_errors=True)
    if 'labels' not in job:  # the undisturbed run gives the reference contents
        names = {}
        for i, r in enumerate([{'snap': first}] + res):
            for k in ('bak', 'main'):
                if r['snap'][k] not in ('none', 'bad'):
                    names.setdefault(r['snap'][k], f'v{i}{k[0]}')
        return {'labels': names, 'ops': [r['ops'] for r in res], 'outs': [r['out'] for r in res],
                'want': [names.get(r['snap']['main'], 'bad') for r in res]}
    ev = [{'ev': 'start', 'main': lab(first['main']), 'bak': lab(first['bak'])}]
    for i, r in enumerate(res):
        p = job['plans'][i]
        fired = r['out'] == 'crash' or r['hit'] is not None
        out, told = r['out'], ''
        if r['out'] == 'ok' and r['val']:
            new, told = r['val']
            out = 'ok' if new else 'Error'
        ev.append({'ev': 'save', 'out': out, 'msg': '' if r['out'] == 'ok' else str(r['val']), 'want': job['want'][i],
                   'main': lab(r['snap']['main']), 'bak': lab(r['snap']['bak']),
                   'fault': p.get('kind', 'none') if fired else 'none', 'persistent': p.get('kind') in ('fail*',), 'hit': str(r['hit']),
                   'locked': bool(job.get('lock')), 'needs': job['setup']['what'] == 'import', 'told': told, 'debris': [], 'project': 'same', 'cwd': 'same'})
    return {'seed': job['seed'], 'job': {k: job[k] for k in ('setup', 'plans')}, 'ev': ev}


def run():
    chk = pw.Check('C04', 'fault_enumeration')
    chk.add_tlc(pw.model_check('SaveProtocol', min_states=100))
    setups = [{'what': 'save', 'main': True, 'bak': b} for b in ('none', 'old', 'bad')]
    setups += [{'what': 'save', 'main': False, 'bak': b} for b in ('none', 'old')]
    setups += [{'what': 'import', 'main': True, 'bak': b} for b in ('none', 'old')]
    setups += [{'what': 'create', 'main': False, 'bak': b} for b in ('none', 'old')]
    refs = pw.parallel(run_one, [{'seed': chk.seed * 100, 'setup': s, 'plans': [{}, {}]} for s in setups])
    jobs = []
    rnd = random.Random(chk.seed)
    for s, ref in zip(setups, refs):
        if '@crash' in ref:
            chk.violate('crash', ref['@crash'], s)
            continue
        base = {'seed': chk.seed * 100, 'setup': s, 'labels': ref['labels'], 'want': ref['want']}
        if ref['outs'][0] != 'ok' or ref['want'][0] == 'bad':
            chk.violate('failure-without-fault', f'{s}: {ref["outs"]}', s)
            continue
        jobs.append(dict(base, plans=[{}]))
        jobs.append(dict(base, plans=[{}], lock=True))
        one = h_fault.plans(ref['ops'][0], pw.scale((0, 1, 700), (0, 1, 100, 700, 1500, 3000)))
        two = h_fault.plans(ref['ops'][1], (0, 700)) if s['what'] != 'create' else []
        for p in one:
            jobs.append(dict(base, plans=[p]))
        if s['what'] == 'create':
            continue
        pairs = [[p, q] for p in one for q in two + [{}] if p['kind'] in ('fail', 'full')]
        rnd.shuffle(pairs)
        for pq in pairs[:pw.scale(60, 1200)]:
            jobs.append(dict(base, plans=pq))
    traces = pw.parallel(run_one, jobs, seconds=800)
    good = [t for t in traces if '@crash' not in t]
    chk.count(evaluations=len(good), distinct_nontrivial=len({json.dumps(t['job']) for t in good if any(e.get('fault') not in (None, 'none') for e in t['ev'])}))
    chk.cov['rule'] = ('one case = a situation (save, import or creation; with/without project and backup) and a fault plan for one or two '
                       'attempts; non-trivial: a fault really hit an operation or killed the process')
    for t in good[5:8]:
        chk.sample({'job': t['job'], 'events': t['ev']})
    yc.run_traces(chk, traces, [''], module='JudgeSave')
    return chk.finish()
