#!/usr/bin/env python3
# MANIFEST.json from the list of claimed checks
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
T = {}
exec(open(V + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in T and os.path.exists(f'{V}/harness/p_{i}.cpp'):
        t, note, *lv = T[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}", "evidence_file": f"evidence/{i}.json",
            "technique": t, "level": lv[0] if lv else "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the checks compile /repo/src/*.c from the working tree and rename its libc calls in the object files (objcopy --redefine-syms)."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
