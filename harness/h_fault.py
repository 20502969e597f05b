"""Run an action of the code under test in a child process in which file operations fail, or which dies.

Faults are injected where the interpreter meets the operating system (audit events, file size limit), so
nothing here depends on how the code under test is written. Only operations inside the scratch folder count.
"""
import errno
import json
import os
import resource
import signal
import sys
import traceback

import pw

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
OPS = {'os.rename', 'os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink'}


class _Plan:

    def __init__(self, plan, root):
        self.plan = plan
        self.root = root
        self.n = 0
        self.log = []
        self.hit = None
        self.active = False

    def inside(self, p):
        if isinstance(p, bytes):
            p = p.decode('utf-8', 'replace')
        if not isinstance(p, str):
            return False
        return not os.path.isabs(p) or p.startswith(self.root)

    def hook(self, event, args):
        if not self.active:
            return
        if event == 'open':
            path, mode, flags = args
            if not self.inside(path):
                return
            writing = (isinstance(flags, int) and flags & WRITE_FLAGS) or (isinstance(mode, str) and any(c in mode for c in 'wax+'))
            name = 'write' if writing else 'read'
        elif event in OPS:
            if not any(self.inside(a) for a in args[:2] if isinstance(a, (str, bytes))):
                return
            name = event[3:]
            path = args[0]
        else:
            return
        self.n += 1
        self.log.append(name)
        k, n = self.plan.get('kind'), self.plan.get('n', 0)
        if k is None or self.n < n:
            return
        if self.n == n:
            self.hit = name
        if k == 'crash' and self.n == n:
            os._exit(77)
        if k == 'fail' and self.n == n or k == 'fail*':
            raise (PermissionError(errno.EACCES, 'injected') if self.plan.get('exc') == 'perm' else OSError(errno.ENOSPC, 'injected'))
        if k in ('full', 'kill') and self.n == n:
            if k == 'kill':
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            __, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.plan['bytes'], hard))


def run(steps, snap, root, seconds=60):
    """Run steps [(action, plan)] in one forked child, each under its plan; snap() -> JSON after each of them.

    Return a list of dicts: out ('ok', 'Error', 'exc:..', 'crash', 'hang'), val, ops (names of the operations met),
    hit (the operation at fault), snap. A crash ends the list; its snapshot is taken by the parent.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            current = [None]
            sys.addaudithook(lambda event, args: current[0] is not None and current[0].hook(event, args))
            for action, plan in steps:
                p = _Plan(plan, root)
                p.active = True
                current[0] = p
                kind, val = pw.outcome(action, seconds=seconds)
                p.active = False
                __, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
                res = {'out': kind, 'val': val, 'ops': p.log, 'hit': p.hit, 'snap': snap()}
                os.write(w, (json.dumps(res) + '\n').encode())
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read().decode()
    __, st = os.waitpid(pid, 0)
    res = [json.loads(line) for line in data.splitlines()]
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 77:
        res.append({'out': 'crash', 'val': None, 'ops': [], 'hit': None, 'snap': snap()})
    elif os.WEXITSTATUS(st):
        raise pw.HarnessError(f'faulted run ended with status {st}')
    return res


def plans(ops, sizes=(0, 1, 700), crash=True):
    """All single faults of an action that met the given operations when undisturbed."""
    out = []
    for n, name in enumerate(ops, 1):
        out.append({'kind': 'fail', 'n': n, 'exc': 'os'})
        out.append({'kind': 'fail', 'n': n, 'exc': 'perm'})
        out.append({'kind': 'fail*', 'n': n})
        if crash:
            out.append({'kind': 'crash', 'n': n})
        if name == 'write':
            for b in sizes:
                out.append({'kind': 'full', 'n': n, 'bytes': b})
                if crash:
                    out.append({'kind': 'kill', 'n': n, 'bytes': b})
    return out
