#!/usr/bin/env python3
"""mkseed.py SPEC.py: write /verif/seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}. SPEC defines a list B of dicts: id, prop, file, subs=[(old,new[,occurrence])], needs, breaks, demo (C++ text; main returns 0 when the property holds)."""
import sys, os, subprocess, json, shutil, difflib
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['B']:
    if only and b['id'] not in only: continue
    d = '/verif/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
    edits = b.get('edits') or [(b['file'], b['subs'])]
    out = ''
    for f, subs in edits:
        src = open('/repo/include/graph/' + f).read(); new = src
        for s in subs:
            old, rep = s[0], s[1]; occ = s[2] if len(s) > 2 else None
            n = new.count(old)
            if occ is None:
                assert n == 1, (b['id'], f, old, n); new = new.replace(old, rep)
            elif occ == 'all':
                assert n >= 1, (b['id'], old); new = new.replace(old, rep)
            else:
                p = -1
                for _ in range(occ): p = new.index(old, p + 1)
                new = new[:p] + rep + new[p + len(old):]
        a = 'include/graph/' + f
        out += ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + a, 'b/' + a))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cpp', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds. Run with cwd = the repository.
t=$(mktemp -d) || exit 99
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
g++ -std=c++20 %s-Iinclude "$(dirname "$0")/demo.cpp" -o "$t/demo" || exit 98
timeout 100 "$t/demo"
''' % (b.get('flags', '-O1 ')))
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], check=True)
    # original lines only
    base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
    print(b['id'], 'ok')
