#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the built harness lists (vh list x)."""
import json, subprocess, sys
here = sys.path[0] + '/..'
ps = json.loads(subprocess.check_output([sys.argv[1], 'list', 'x']))
checks = []
for p in ps:
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./check {p['id']} quick",
        'thorough_cmd': f"./check {p['id']} thorough",
        'technique': p['technique'],
        'level': p['level'],
        'level_note': p['note'] + ((' Assumes: ' + '; '.join(p['assume']) + '.') if p['assume'] else ''),
    })
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
assert [c['property'] for c in checks] == ids, (ids, [c['property'] for c in checks])
json.dump({'version': 1, 'setup_cmd': './tools/setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the harness is built against the working tree through a go.work file and one overlay package. The level "exploration" means: held on every generated case.'},
          open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(here + '/MANIFEST.json', 'a').write('\n')
