#!/usr/bin/env python3
"""Parse every specification module once, offline; the checks need nothing else built."""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def main():
    tmp = tempfile.mkdtemp(prefix='pywv-setup-')
    try:
        mods = sorted(n for n in os.listdir(SPEC) if n.endswith('.tla'))
        for n in mods:
            shutil.copy(os.path.join(SPEC, n), tmp)
        p = subprocess.run(['java', '-Dfile.encoding=UTF-8', f'-Djava.io.tmpdir={tmp}', '-cp', CP, 'tla2sany.SANY', *mods], cwd=tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        out = p.stdout.decode('utf-8', 'replace')
        bad = p.returncode != 0 or '*** Errors' in out or 'Fatal' in out or 'Could not' in out
        if bad:
            print(out[-4000:])
            return 1
        print(f'{len(mods)} modules parsed')
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
