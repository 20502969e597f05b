#!/usr/bin/env python3
"""Run the check of one property:  python3 harness/check.py C01

Exit 0: the property held on everything explored; 1: VIOLATION; 2: the machinery failed.
"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import pw


def main():
    pw.ensure_env()
    prop = sys.argv[1]
    try:
        pw.scratch()
        mod = importlib.import_module(prop.lower())
        return mod.run()
    except pw.HarnessError as ex:
        print(f'MACHINERY FAILURE in {prop}: {ex}', file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
