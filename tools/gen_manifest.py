#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/ and the table below (python3 tools/gen_manifest.py)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from manifest_data import TECH, NA, NOTE
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(H, 'checks', i.lower() + '.py')) and i not in NA:
        checks.append(dict(property=i, quick_cmd='./check.sh %s' % i, thorough_cmd='./check.sh %s --thorough' % i, technique='static analysis: ' + TECH.get(i, 'gated value graph of the LLVM IR'),
                           level='other', level_note=NOTE.get(i, NOTE['*']), evidence_file='evidence/%s.json' % i))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='mkdir -p evidence && python3 -c "import sys"', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
