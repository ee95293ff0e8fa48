#!/usr/bin/env python3-vt
# helper used while writing planted changes: mkseed(id, property, {file: [(old, new), ...]}, demo files, needs, breaks)
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mkseed(id, prop, edits, demo, needs, breaks, files=(), lib=True):
    d = tempfile.mkdtemp(prefix='mkseed'); s = V + '/seeded/' + id
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C ' + d, shell=True)
    subprocess.check_call('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=d)
    for f, es in edits.items():
        t = open(d + '/' + f).read()
        for e in es: # (old, new), or (anchor, old, new): the first old after the (last) anchor
            if len(e) == 2: assert t.count(e[0]) == 1, (id, f, t.count(e[0]), e[0])
            k = t.rindex(e[0]) if len(e) == 3 else 0; old, new = e[-2:]; k = t.index(old, k)
            t = t[:k] + new + t[k + len(old):]
        open(d + '/' + f, 'w').write(t)
    os.makedirs(s, exist_ok=True)
    diff = subprocess.check_output(['git', 'diff'], cwd=d).decode(); open(s + '/patch.diff', 'w').write(diff)
    open(s + '/meta.json', 'w').write(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
    if isinstance(demo, str):
        if lib: shutil.copy(V + '/tools/demo/elp.py', s)
        open(s + '/demo.py', 'w').write(demo); open(s + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    else:
        for n, t in demo.items(): open(s + '/' + n, 'w').write(t)
    shutil.rmtree(d)
    # only lines of the original repository may be removed
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).decode().strip()
    for f, es in edits.items():
        orig = set(l.strip() for l in subprocess.check_output(['git', '-C', '/repo', 'show', base + ':' + f]).decode().splitlines())
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in orig: print(id, 'removes a line that is not original:', l)
        if not any(l.startswith('-') and not l.startswith('---') for l in diff.splitlines()): print(id, 'only adds lines')
    print('wrote', id)
