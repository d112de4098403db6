#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl, MANIFEST.json and the checks) + tools/design_tail.md"""
import ast, json, os, textwrap
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(H, *p)).read()
man = {c['property']: c for c in json.loads(rd('MANIFEST.json'))['checks']}
fixes = []
for l in rd('known-findings.txt').splitlines():
    if l.startswith('fixed:'):
        p, c, what = l[len('fixed: property='):].split(' ', 2)
        fixes.append('* %s `%s` %s' % (p, c, what))
out = rd('tools', 'design_head.md').replace('FIXES', '\n\n' + '\n'.join(fixes)) + '## The properties\n\n'
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    env = {}
    subs = []
    for node in ast.parse(rd('pbt', 'checks', p['id'].lower() + '.py')).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            env[node.targets[0].id] = ast.literal_eval(node.value)
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'SUBS':
            for c in node.value.elts:
                kw = {k.arg: k.value for k in c.keywords}
                q = ast.literal_eval(kw['quick']) if 'quick' in kw else None
                subs.append('%s (%s)' % (ast.literal_eval(c.args[0]), ', '.join(
                    ([str(q) + ' generated'] if 'gen' in kw else []) + (['enumerated'] if 'enum' in kw else []) +
                    (['fresh process each'] if 'fork' in kw else []))))
    out += '### %s %s\n\n' % (p['id'], p['title'])
    out += textwrap.fill('Decided by ' + man[p['id']]['technique'] + '.', 120) + '\n\n'
    out += textwrap.fill(' '.join(env['RULE'].split()), 120) + '\n\n'
    out += textwrap.fill('Statements and quick counts: ' + '; '.join(subs) + '.', 120) + '\n'
    if env['ASSUMPTIONS']:
        out += '\n' + textwrap.fill('Assumes: ' + '; '.join(env['ASSUMPTIONS']) + '.', 120) + '\n'
    out += '\n'
out += rd('tools', 'design_tail.md')
out += '\n| change | property | check | needs |\n|---|---|---|---|\n'
for l in rd('tools', 'planted.txt').splitlines():
    i, c, v = l.split()[:3]
    m = json.loads(rd('seeded', i, 'meta.json'))
    out += '| %s | %s | %s %s | %s |\n' % (i, m['property'], c, v.lower(), m['needs'].replace('|', '/'))
open(os.path.join(H, 'DESIGN.md'), 'w').write(out)
