#!/usr/bin/env python3
"""MANIFEST.json: a check for every property of properties.jsonl that has a harness; the rest is not applicable with a reason."""
import json, glob, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
NA = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
checks, na = [], []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    hs = sorted(glob.glob('harness/%s.cpp' % p) + glob.glob('harness/%s_*.cpp' % p))
    if hs and p not in NA:
        b = []
        for f in hs:
            b += [re.sub(r'^// @bounds\s*', '', x.strip()) for x in open(f) if x.startswith('// @bounds')]
        checks.append({"property": p, "quick_cmd": "./check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check.py %s --thorough" % p,
                       "technique": "bounded symbolic execution of the real templates' LLVM IR, infeasible branches and discharged assertions decided by Z3 unless they rewrite to constants, counterexamples replayed natively under ASan/UBSan",
                       "level": "model_checking", "level_note": ("Bounds: " + " | ".join(b))[:1500]})
    else: na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "engine/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
