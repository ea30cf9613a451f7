#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from sa/props/*.py (their
docstring-level META tables are read from the syntax tree, not imported)."""
import ast
import glob
import json
import os

root = os.path.dirname(os.path.abspath(__file__))
props, checks = [], []
for f in sorted(glob.glob(os.path.join(root, 'sa/props/c[0-9][0-9].py'))):
    pid = os.path.basename(f)[:-3].upper()
    meta = None
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and \
           getattr(node.targets[0], 'id', '') == 'META':
            meta = ast.literal_eval(node.value)
    if meta is None:
        raise SystemExit('no META in ' + f)
    assert len(meta['title']) <= 80, (pid, len(meta['title']))
    props.append({
        'id': pid, 'title': meta['title'], 'statement': meta['statement'],
        'quantifier': {'over': meta['over'], 'text': meta['quant']},
        'why_tests_cant': meta['why'],
        'anchors': {'files': ['sdepy/' + x for x in meta['files']],
                    'mechanism': [{'name': a, 'where': b}
                                  for a, b in meta['mech']]}})
    checks.append({
        'property': pid,
        'quick_cmd': './run check %s --tier quick' % pid,
        'thorough_cmd': './run check %s --tier thorough' % pid,
        'technique': meta['technique'],
        'level': 'other',
        'level_note': meta['note']})
na = json.load(open(os.path.join(root, 'not_applicable.json')))
manifest = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                       for p in na],
    'notes': 'All checks are static: abstract interpretation of the current '
             'source of /repo/sdepy by the analyser in sa/; the code under '
             'test is never imported or run. See DESIGN.md.'}
for p in na:
    q = dict(p)
    q.pop('reason')
    props.append(q)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in sorted(props, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')

MISSED = """param-constant-shortcut store-isclose zero-increment
kfunc-none-override numpy-int-steps range-with-named-bins vstd-first-axis
check-source-larger last-point-restart third-default""".split()
rows = ['| bug | caught by | what it needs | missed at first |',
        '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['needs'].replace('|', '/'),
        'yes' if i in MISSED else ''))
fixes = []
for line in open(os.path.join(root, 'known_findings.txt')):
    if line.startswith('fixed: '):
        _, pid, commit, what = line.strip().split(' ', 3)
        fixes.append('* %s (%s): %s' % (pid.split('=')[1], commit, what))
with open(os.path.join(root, 'DESIGN.tmpl.md')) as f:
    s = f.read()
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write(s.replace('FIXES\n', '\n'.join(fixes) + '\n', 1).replace(
        'BUGS\n', '\n'.join(rows) + '\n', 1))
