import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        if p['observe']:
            o['anchors']['observe_at'] = p['observe']
        if p['state']:
            o['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        for w in p['files']:
            assert os.path.exists('/repo/' + w), w
        f.write(json.dumps(o) + '\n')
checks = []
for p in P:
    if 'na' in p:
        continue
    checks.append(dict(property=p['id'], quick_cmd='./run.sh ' + p['id'], thorough_cmd='./run.sh ' + p['id'],
                       technique='static analysis: ' + p['tech'], level='other', level_note=p['note']))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if 'na' in p])
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
# DESIGN.md: head + generated property list
d = open(os.path.join(here, 'design_head.md')).read()
d += '\n## Properties\n'
for p in P:
    d += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if 'na' in p:
        d += '*Not applicable:* %s\n' % p['na']
    else:
        d += '*Decided by:* %s.\n\n%s\n\n*Level:* %s\n' % (p['tech'], p['design'], p['note'])
t = os.path.join(here, 'design_tail.md')
if os.path.exists(t):
    seeds = ''
    for i in sorted(os.listdir(os.path.join(root, 'seeded'))):
        meta = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
        seeds += '* `%s` (%s): %s\n' % (i, meta['property'], ' '.join(meta['what_it_breaks'].split()))
    d += '\n' + open(t).read().replace('@SEEDS@\n', seeds)
open(os.path.join(root, 'DESIGN.md'), 'w').write(d)
print(len(P), 'properties,', len(checks), 'claimed')
