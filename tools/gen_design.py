"""Fills the tables of DESIGN.md from tools/design_props.py, known_findings.json and seeded/."""
import json
import os
import re
import runpy

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(H, 'tools', 'DESIGN.in.md')


def main():
    d = runpy.run_path(os.path.join(H, 'tools', 'design_props.py'))
    props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
    out = []
    for p in props:
        out.append('### %s %s\n\n%s' % (p['id'], p['title'], d['P'].get(p['id'], '(not built yet)').strip()))
    kf = json.load(open(os.path.join(H, 'known_findings.json')))['findings']
    fixed = '\n'.join('* ' + f['line'] for f in kf if f['status'] == 'fixed')
    rows = ['| change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
    res = d['CAUGHT']
    for s in sorted(os.listdir(os.path.join(H, 'seeded'))):
        m = json.load(open(os.path.join(H, 'seeded', s, 'meta.json')))
        rows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'],
                                                    res.get(s, m['property'])))
    t = open(T).read()
    t = t.replace('@@PROPERTIES@@', '## Per property\n\n' + '\n\n'.join(out))
    t = t.replace('@@FIXED@@', fixed).replace('@@SEEDED@@', '\n'.join(rows))
    open(os.path.join(H, 'DESIGN.md'), 'w').write(t)


main()
