#!/usr/bin/env python3
"""Writes DESIGN.md from the properties, the checks and the planted bugs (costs: tools/costs.json, from tools/all.sh)."""
import json, os, re, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, os.path.join(H, 'tools'))
from manifest_data import TECH, NA
import ast
rd = lambda p: open(os.path.join(H, p)).read()
def consts(pid):
    out = {'EXPLAIN': '', 'ASSUME': []}; rules = []
    t = ast.parse(rd('checks/%s.py' % pid.lower()))
    for n in ast.walk(t):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in out:
            try: out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and n.args and isinstance(n.args[0], ast.Constant): rules.append(n.args[0].value)
    return out['EXPLAIN'], out['ASSUME'], list(dict.fromkeys(rules))
cost = json.load(open(os.path.join(H, 'tools/costs.json'))); out = rd('tools/design_head.md')
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    if p['id'] in NA: continue
    ex, asm, rules = consts(p['id'])
    c = cost.get(p['id'])
    out += '\n## %s %s\n\n' % (p['id'], p['title'])
    out += '*Method*: %s.\n\n%s\n\n' % (TECH[p['id']], ex)
    out += '*Rules (oracle)*:\n' + ''.join('- %s\n' % r for r in rules)
    out += '\n*Assumptions and bounds*: %s.\n\n' % ('; '.join(asm) if asm else 'none')
    out += '*Beyond tests*: %s\n' % p['why_tests_cant']
    if c: out += '\n*Cost*: about %s s; %s obligations, %s undecided.\n' % (c['s'], c['n'], c['u'])
tail = rd('tools/design_tail.md')
tail = tail.replace('@FIXED@', '\n'.join('* ' + x.replace('fixed: property=', '') for x in json.loads(rd('known_findings.json'))['fixed']))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
also = json.loads(rd('tools/caught.json')) if os.path.exists(os.path.join(H, 'tools/caught.json')) else {}
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.loads(rd('seeded/%s/meta.json' % d)); rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], ', '.join(also.get(d, [m['property']]))))
out += '\n' + tail.replace('@SEEDS@', '\n'.join(rows))
open(os.path.join(H, 'DESIGN.md'), 'w').write(out)
