#!/usr/bin/env python3
# mkseed.py ID PROP FILE(under packages/) "needs" "what" old new [old new ...]   ("@FILE" switches file)
# writes seeded/ID/patch.diff + meta.json from a textual edit of /repo's HEAD
import sys, os, json, difflib, subprocess, shutil
i, prop, f, needs, what, *pairs = sys.argv[1:]
d = f'/verif/seeded/{i}'; os.makedirs(d, exist_ok=True)
edits = {}
k = 0
while k < len(pairs):
    if pairs[k].startswith('@'): f = pairs[k][1:]; k += 1; continue
    rel = 'packages/' + f
    s = edits.get(rel) or subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + rel], text=True)
    if s.count(pairs[k]) != 1: sys.exit(f'{s.count(pairs[k])} occurrences of: {pairs[k]}')
    edits[rel] = s.replace(pairs[k], pairs[k + 1]); k += 2
out = ''
for rel, s in edits.items():
    o = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + rel], text=True)
    out += f'diff --git a/{rel} b/{rel}\n' + ''.join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), 'a/' + rel, 'b/' + rel))
open(d + '/patch.diff', 'w').write(out)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/tools/demo-lib.js', d + '/lib.js')
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n')
print('ok', d)
