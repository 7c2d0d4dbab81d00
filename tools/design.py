#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, the per-property part (from tools/props.py, the BOUNDS
and OUTSIDE texts of the harnesses and HOW below), the known findings and the planted bugs."""
import ast
import importlib.util
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('props', os.path.join(V, 'tools', 'props.py'))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)
spec = importlib.util.spec_from_file_location('how', os.path.join(V, 'tools', 'how.py'))
how = importlib.util.module_from_spec(spec)
spec.loader.exec_module(how)


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in out:
            out[n.target.id] += ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and n.targets[0].id if isinstance(
                getattr(n, 'targets', [None])[0], ast.Name) else False:
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    o = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties', '']
    for p in props.PROPS:
        pid = p['id']
        h = os.path.join(V, 'harness', pid.lower() + '.py')
        o += ['### %s %s' % (pid, p['title']), '']
        if os.path.exists(h) and pid not in props.NOT_APPLICABLE:
            c = consts(h)
            o += ['*Decided by* `harness/%s.py`. %s' % (pid.lower(), how.HOW.get(pid, '')), '',
                  '*Bounds:* %s.' % ' '.join(c.get('BOUNDS', '').split()), '',
                  '*Outside:* %s.' % ' '.join(c.get('OUTSIDE', '').split()), '']
        else:
            o += ['*Not claimed:* %s' % props.NOT_APPLICABLE.get(pid, 'no check has been built yet'), '']
    o += ['## Defects found in the project', '']
    for line in open(os.path.join(V, 'known_findings.jsonl')):
        line = line.strip()
        if line.startswith('{'):
            k = json.loads(line)
            o.append('- **recorded** %s: %s' % (k['property'], k['what']))
        elif line:
            o.append('- ' + line)
    o += ['', '## Planted bugs', '',
          'Result of `tools/seedcheck.py` (the check of the bug\'s property, quick tier).', '',
          '| bug | property | needs | caught by |', '|---|---|---|---|']
    rp = os.path.join(V, 'tools', 'seed_results.json')
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    for n in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', n, 'meta.json')))
        r = res.get(n, {})
        o.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'),
                 (m['property'] + ' ' + r.get('how', '').replace('counterexample ', '').replace('|', '/'))
                 if r.get('caught') else ('**missed**' if r else 'not run')))
    o += ['', open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip(), '']
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))


main()
