#!/usr/bin/env python3
"""mkseed.py SPEC.py...: (re)creates /verif/seeded/<id>/ from a spec: a Python file that sets
id, prop, needs, breaks, edits=[(file, old, new)], demo (Alusus source), expected (its output),
and optionally stdin, shell (a complete demo.sh body instead of the default one) and files."""
import json, os, subprocess, sys, runpy, shutil, tempfile

SH = r'''#!/bin/bash
# Runs demo.alusus on the built tree and compares its output. cwd: the repository.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
export LD_LIBRARY_PATH=$R/_build/Core:$R/_build/Spp ALUSUS_LIBS=$R/Sources/Srt:$R/_build/Spp LANG=C.UTF-8
A=$R/_build/Core/alusus.dbg
cp "$D"/demo* "$T"/
cd "$T" || exit 2
%s
'''
DEF = r'''timeout 100 "$A" demo.alusus < %s > out.txt 2>&1
S=$?
if [ $S -ne 0 ]; then echo "status $S"; head -c 2000 out.txt; exit 1; fi
diff "$D/expected.txt" out.txt'''

for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = '/verif/seeded/' + s['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    repo = '/repo'
    t = tempfile.mkdtemp(prefix='mkseed')
    diff = ''
    byfile = {}
    for f, old, new in s['edits']: byfile.setdefault(f, []).append((old, new))
    subprocess.check_call(['git', '-C', t, 'init', '-q'])
    for f, eds in byfile.items():
        src = open(os.path.join(repo, f)).read()
        p = os.path.join(t, f); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(src)
        subprocess.check_call(['git', '-C', t, 'add', f])
        for old, new in eds:
            assert src.count(old) == 1, (s['id'], f, src.count(old), old)
            src = src.replace(old, new)
        open(p, 'w').write(src)
    diff = subprocess.check_output(['git', '-C', t, 'diff'], text=True)
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    body = s.get('shell') or DEF % ('"$D/demo.in"' if 'stdin' in s else '/dev/null')
    open(d + '/demo.sh', 'w').write(SH % body); os.chmod(d + '/demo.sh', 0o755)
    if 'demo' in s: open(d + '/demo.alusus', 'w').write(s['demo'])
    if 'expected' in s: open(d + '/expected.txt', 'w').write(s['expected'])
    if 'stdin' in s: open(d + '/demo.in', 'w').write(s['stdin'])
    for n, c in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    print(d)
