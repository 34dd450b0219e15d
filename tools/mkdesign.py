"""Writes DESIGN.md from tools/design.in.md, the checks, the known findings and the planted bugs."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
P = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l); P[d['id']] = d
M = json.load(open(os.path.join(V, 'MANIFEST.json')))
EXTRA = json.load(open(os.path.join(V, 'tools', 'design_extra.json')))
out = []
for c in M['checks']:
    p = c['property']; k = importlib.import_module('dst.' + p.lower()).CHECK; d = P[p]
    out.append('\n### %s %s\n' % (p, d['title']))
    out.append('* **Decided by** %s.' % c['technique'].replace('deterministic simulation: ', ''))
    out.append('* **A case:** %s.' % k.rule.rstrip('.'))
    if EXTRA.get(p): out.append('* **Oracle:** ' + EXTRA[p])
    out.append('* **Bounds:** %s %s' % (c['level_note'], ('Assumed: ' + '; '.join(k.assumptions) + '.') if k.assumptions else ''))
    out.append('* **Cost:** quick %d cases (at most %d s), thorough until %d s. Coverage counted as %s.' % (k.quick, k.quick_cap, k.thorough_s, k.measure))
    def names(v): return v if isinstance(v, str) else ', '.join(v)
    out.append('* **Real:** %s. **Simulated:** %s.' % (names(k.real), names(k.stub)))
    out.append('* **Beyond the tests:** %s' % d['why_tests_cant'])
na = ['* **%s** %s' % (x['property'], x['reason']) for x in M['not_applicable'] if x['property'] not in ('P21', 'P22')]
known = []
for l in open(os.path.join(V, 'known-findings.txt')):
    if l.startswith('known: '):
        known.append('* ' + l[7:].strip().replace('property=', '').replace('sig=', '`', 1).replace(' ', '\0', 1).replace(' ', '`: ', 1).replace('\0', ' '))
seeds = []
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
for sub in ('seeded', 'seeded-uncounted'):
    D = os.path.join(V, sub)
    seeds.append('\n`%s/`\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|' % sub)
    for s in sorted(os.listdir(D)):
        m = json.load(open(os.path.join(D, s, 'meta.json')))
        seeds.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], caught.get(s, m['property'])))
t = open(os.path.join(V, 'tools', 'design.in.md')).read()
for a, b in (('@@PROPS@@', out), ('@@NA@@', na), ('@@KNOWN@@', known), ('@@SEEDS@@', seeds)):
    t = t.replace(a, '\n'.join(b))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
