#!/usr/bin/env python3
"""append `fixed:` lines for /repo fix commits not listed yet: record_fixes.py PROP [substring]"""
import subprocess, sys
prop = sys.argv[1]
known = open('/verif/known_findings.txt').read()
out = []
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--oneline'], text=True).splitlines()):
    h, s = l.split(' ', 1)
    if s.startswith('fix: ') and h not in known and (len(sys.argv) < 3 or sys.argv[2].lower() in s.lower()):
        out.append(f"fixed: property={prop} {h} {s[5:]}\n")
open('/verif/known_findings.txt', 'a').write(''.join(out))
print(''.join(out))
