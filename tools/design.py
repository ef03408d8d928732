"""Writes DESIGN.md from the properties and checks (python3 tools/design.py)."""
import ast
import glob
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(path):
    with open(os.path.join(HERE, path)) as fp:
        return fp.read()


def info(pid):
    out = {}
    for n in ast.parse(read('checks/%s.py' % pid.lower())).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def wrap(text):
    return textwrap.fill(text, 80) + '\n'


def item(name, text):
    return textwrap.fill('* %s: %s' % (name, text), 80, subsequent_indent='  ') + '\n'


out = [read('tools/design_head.md').rstrip() + '\n']
COST = json.loads(read('tools/cost.json'))
caught = {}
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    meta = json.load(open(path))
    caught.setdefault(meta['property'], []).append(
        (os.path.basename(os.path.dirname(path)), meta['needs']))
for line in read('properties.jsonl').splitlines():
    p = json.loads(line)
    c = info(p['id'])
    out.append('\n### %s %s\n\n' % (p['id'], p['title']))
    out.append(wrap(p['statement']) + '\n')
    out.append(item('decided by', c['TECHNIQUE']))
    out.append(item('space', c['NOTE']))
    out.append(item('case', c['RULE']))
    if c['ASSUMPTIONS']:
        out.append(item('outside', '; '.join(c['ASSUMPTIONS'])))
    out.append(item('cost', COST.get(p['id'], 'not measured')))
    out.append(item('why not tests', p['why_tests_cant']))
out.append('\n' + read('tools/design_tail.md').strip() + '\n\n')
out.append('| change | needs | caught by |\n|---|---|---|\n')
for pid in sorted(caught):
    for name, needs in caught[pid]:
        out.append('| %s | %s | %s |\n' % (name, needs.replace('|', '/'), pid))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fp:
    fp.write(''.join(out))
print(len(''.join(out).splitlines()), 'lines')
