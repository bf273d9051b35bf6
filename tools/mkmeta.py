#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props  # noqa

TECHNIQUE = 'bounded symbolic execution of the Python sources (own engine, '\
    'sx/), path conditions and assertions decided by Z3'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props.PROPS:
            d = {
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p.get('over', ['inputs']),
                               'text': p['quantifier']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mechanism']],
                    'observe_at': p.get('observe', []),
                    'hook_needed': None,
                },
            }
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    na = []
    for p in props.PROPS:
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough'
                            % p['id'],
            'technique': TECHNIQUE,
            'level': 'model_checking',
            'level_note': p['note'],
        })
    m = {
        'version': 1,
        'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version())"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks: /repo carries only fix: commits. See DESIGN.md.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
