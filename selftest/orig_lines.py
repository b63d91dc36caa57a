#!/usr/bin/env python3
"""Which planted bugs change only lines that are not the original repository's?"""
import subprocess, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'cd222fa'
for d in sorted(glob.glob(V + '/seeded/*')):
    f, n, o = None, 0, 0
    for l in open(d + '/patch.diff'):
        m = re.match(r'--- a/(.*)', l)
        if m:
            f = m.group(1)
            src = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + f], capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('-') and l[1:].strip():
            n += 1
            o += l[1:].rstrip('\n') in src
        elif l.startswith('+') and not l.startswith('+++') :
            pass
    if o == 0:
        print(os.path.basename(d), 'removed lines', n, 'original', o)
