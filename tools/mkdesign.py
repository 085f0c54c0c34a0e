"""Assembles DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
rd = lambda n: open(os.path.join(H, n), encoding='utf-8').read()
out = rd('design_head.md') + '\n' + rd('design_props.md') + '\n## Planted bugs\n\n'
out += ('Each is a change that compiles, passes the 202 stable tests and breaks one property under special circumstances '
        '(`seeded/<id>`: patch, demonstration, meta). All were written from the property and the code; "caught" was measured with the quick '
        'check on /repo with the patch applied.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n')
caught = json.load(open(os.path.join(H, 'caught.json')))
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')), key=lambda p: (json.load(open(p))['property'], p)):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    c = caught.get(i, d['property'])
    out += '| %s | %s | %s | %s |\n' % (i, d['property'], d['needs'].replace('|', '\\|').replace('\n', ' '), c)
out += '\n' + rd('design_mut.md') + '\n' + rd('design_tail.md')
open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8').write(out)
