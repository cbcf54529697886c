# Writes DESIGN.md (run from anywhere, after the checks, whose evidence it reads: python3 gen/design.py).
import json, os, glob, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
man = json.load(open(HERE + '/MANIFEST.json'))
claimed = [c['property_id'] if 'property_id' in c else c.get('property') for c in man['checks']]
na = {n['property']: n['reason'] for n in man['not_applicable']}
seeds = {}
for m in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs'], d['what_it_breaks']))
kf = [l.strip() for l in open(HERE + '/known_findings.txt') if l.strip() and l[0] != '#']

HEAD = open(HERE + '/gen/design_head.md').read()
TAIL = open(HERE + '/gen/design_tail.md').read()

LIMITS = json.load(open(HERE + '/gen/limits.json'))


def w(s, ind=''):
    return '\n'.join(textwrap.fill(p, 118, initial_indent=ind, subsequent_indent=' ' * len(ind)) for p in s.split('\n'))


out = [HEAD.rstrip(), '', '## The properties, and how each is decided', '']
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    if i in na:
        out += [w('Not applicable: ' + na[i]), '']
        continue
    e = json.load(open(HERE + '/evidence/%s.json' % i))
    c = e['coverage']
    out += [w(c['explanation']), '']
    a = e.get('assumptions')
    if isinstance(a, list) and a:
        out += [w('Trusted: ' + '; '.join(a) + '.'), '']
    if i in LIMITS:
        out += [w('Limits: ' + LIMITS[i]), '']
    k = [l for l in kf if ('property=%s ' % i) in l]
    fx = [l for l in k if l.startswith('fixed')]
    kn = [l for l in k if l.startswith('known')]
    if fx or kn:
        t = []
        if fx:
            t.append('%d repaired in /repo (%s)' % (len(fx), ', '.join(sorted(set(l.split()[2] for l in fx)))))
        if kn:
            t.append('%d recorded as known findings (%s)' % (len(kn), '; '.join(l.split('key=')[1].split(' ::')[0] for l in kn)))
        out += [w('Defects this check found: ' + ', '.join(t) + '.'), '']
out += ['## Planted bugs', '',
        w('Every one compiles, passes the stable tests, has a demonstration that fails with it, and was written from the text of its property. All are caught (exit 1) by the check of the property named; what a bug needs in order to show is in its meta.json.'), '',
        '| planted bug | caught by | what it breaks |', '|---|---|---|']
for i in sorted(seeds):
    for n, need, br in seeds[i]:
        out.append('| %s | %s | %s |' % (n, i, br.replace('|', '/')))
out += ['', TAIL.rstrip(), '']
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))
