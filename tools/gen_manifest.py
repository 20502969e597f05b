#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from the definitions in props.py.

A property is claimed when harness/checks/<id>.py exists.
"""
import json
import os

from props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks, not_applicable = [], []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
            if os.path.exists(os.path.join(VERIF, 'harness', 'checks', p['id'].lower() + '.py')):
                checks.append({'property': p['id'],
                               'quick_cmd': f'VERIF_TIER=quick python3 harness/check.py {p["id"]}',
                               'thorough_cmd': f'VERIF_TIER=thorough python3 harness/check.py {p["id"]}',
                               'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note']})
            else:
                not_applicable.append({'property': p['id'], 'reason': p.get('na', 'The specification of this part is not bound to the code yet.')})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': not_applicable,
                   'notes': 'TLA+ with TLC. No hooks in /repo: the checks observe the public API, the files, and the file operations.'},
                  f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(checks), 'claimed,', len(not_applicable), 'not claimed')


if __name__ == '__main__':
    main()
