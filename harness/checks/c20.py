"""C20: settings and options persist."""
import os

import gen
import proj
import pw
import yw7_common as yc


def ini(path):
    """Parse an INI file the way its format is defined: sections, 'name = value' lines."""
    sect, out = None, {'SETTINGS': {}, 'OPTIONS': {}}
    with open(path, encoding='utf-8') as f:
        for line in f.read().split('\n'):
            line = line.strip()
            if line.startswith('[') and line.endswith(']'):
                sect = line[1:-1]
            elif line and sect in out:
                k, __, val = line.partition('=')
                out[sect][k.strip().lower()] = val.strip()
    return out


def value(g):
    if g.chance(0.1):
        return ''
    if g.chance(0.15):
        return g.pick(['C:\\Users\\me\\My Novel.yw7', '/home/me/x y/ü.yw7', '100%', '%(home)s/x', '%%', '#c', '; c', '= x', ': y', '[S]',
                       '100x200+10+20', '$x', "'a'", '"a"', 'yes', 'None', 'a = b', 'a: b'])
    return g.line()


def run_one(job):
    from pywriter.config.configuration import Configuration
    g = gen.Gen(job['seed'])
    pool = ['yw_last_open', 'root_geometry', 'key1', 'a', 'b', 'window width', 'k.v', 'x-1', 'path', 'Last_Project', 'ROOT']
    opool = ['proofread', 'Show_Contents', 'o1', 'o2', 'backup', 'UPPER']
    path = os.path.join(os.getcwd(), f'{job["seed"]}.ini')
    ev = []
    low = lambda d: {k.lower(): v for k, v in d.items()}
    snap = lambda c: {'set': low({k: proj.v(x) for k, x in (c.settings or {}).items()}), 'opt': low({k: proj.v(x) for k, x in (c.options or {}).items()})}
    names = g.r.sample(pool, g.r.randint(0, 5))
    onames = g.r.sample(opool, g.r.randint(0, 4))
    other = []
    c = None
    for __ in range(job['steps']):
        k = g.r.random()
        if c is None or k < 0.2:
            s = {n: value(g) for n in names}
            o = {n: g.chance(0.5) for n in onames}
            if c is None or g.chance(0.6):
                c = Configuration(settings=s, options=o)
                name = 'start'
            else:
                c.set(settings=s, options=o)
                name = 'set'
            want = {'dset': low(s), 'dopt': low({n: proj.v(b) for n, b in o.items()})}
            if g.chance(0.5):  # the caller's dictionaries stay the caller's
                for n in s:
                    s[n] = 'changed'
                for n in o:
                    o[n] = not o[n]
                # ... and another configuration is another one
                Configuration(settings={n: 'else' for n in names}, options={n: True for n in onames})
            e = {'ev': name, **want, **snap(c)}
        elif k < 0.4:
            for n in names:
                if g.chance(0.4):
                    c.settings[n] = value(g)
            for n in onames:
                if g.chance(0.4):
                    c.options[n] = g.chance(0.5)
            e = {'ev': 'change', **snap(c)}
        elif k < 0.6:
            kind, msg = pw.outcome(c.write, path)
            f = ini(path) if kind == 'ok' else {'SETTINGS': {}, 'OPTIONS': {}}
            e = {'ev': 'write', 'out': kind, 'msg': msg or '', 'fset': f['SETTINGS'],
                 'fopt': {n: v.lower() for n, v in f['OPTIONS'].items()}, **snap(c)}
        elif k < 0.72:
            fs = {n.lower(): value(g) for n in g.r.sample(pool, g.r.randint(0, 5))}
            fo = {n.lower(): g.pick(['Yes', 'no', 'TRUE', 'false', 'On', 'off', '1', '0', 'junk', '', '2', 'y'])
                  for n in g.r.sample(opool, g.r.randint(0, 4))}
            with open(path, 'w', encoding='utf-8') as f:
                if fs or g.chance(0.5):
                    f.write('[SETTINGS]\n' + ''.join(f'{n} = {v}\n' for n, v in fs.items()))
                if fo or g.chance(0.5):
                    f.write('\n[OPTIONS]\n' + ''.join(f'{n} = {v}\n' for n, v in fo.items()))
                if g.chance(0.3):
                    f.write('\n[OTHER]\nkey1 = other\no1 = yes\n')
            e = {'ev': 'hand', 'fset': fs, 'fopt': {n: v.lower() for n, v in fo.items()}}
        else:
            kind, msg = pw.outcome(c.read, path)
            e = {'ev': 'read', 'out': kind, 'msg': msg or '', **snap(c)}
        ev.append(e)
    if os.path.exists(path):
        os.remove(path)
    return {'seed': job['seed'], 'ev': ev}


def run():
    chk = pw.Check('C20', 'model_checking')
    chk.add_tlc(pw.model_check('MC_Config', min_states=1000))
    jobs = [{'seed': chk.seed * 1000003 + i, 'steps': pw.scale(12, 25)} for i in range(pw.scale(600, 8000))]
    away = pw.scale(60, 800)
    traces = pw.elsewhere(run_one, jobs[:away]) + pw.parallel(run_one, jobs[away:])
    for t in traces[:2]:
        chk.sample(t)
    yc.run_traces(chk, traces, [''], module='JudgeConfig')
    return chk.finish()
