"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    props[d['id']] = d
NA = {
    'P21': 'What generated code computes is a pure function of the program and its operands: no scheduling, time, I/O, fault or history is involved, so a simulator has nothing to decide (differential testing or translation validation would be the right family).',
    'P22': 'Parsing a text is a pure sequential function of its bytes; what delivery, faults and cut-off do to it is claimed as P01-P03, the language accepted as such is out of reach of fault injection.',
}
LEVEL = {'P07': 'fault_enumeration'}
TECH = {
    'P07': 'deterministic simulation: seeded histories of file operations over an in-memory disk with injected faults, judged against a reference file system model',
}
NOTE = {
    'P07': 'Seeded search, not exhaustive: every explored history is checked operation by operation against the model; trusts the simulated disk to behave like a POSIX one.',
}
import sys
sys.path.insert(0, V)
claimed = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'dst')) if f[0] == 'p' and f[1:3].isdigit() and f.endswith('.py') and len(f) == 6)
checks = []
for p in claimed:
    import importlib
    c = importlib.import_module('dst.' + p.lower()).CHECK
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': getattr(c, 'technique', None) or TECH[p], 'level': c.level,
                   'level_note': getattr(c, 'note', None) or NOTE[p]})
na = [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in sorted(props) if p not in claimed]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. python3 check.py <id> --replay <file> replays a reported violation. No hooks in /repo: all seams are outside the sources (interposed C library functions, stub libraries).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(claimed)
