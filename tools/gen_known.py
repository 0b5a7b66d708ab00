"""Rebuilds known_findings.txt from the fix commits of /repo (development only)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, 'known_findings.txt')
head, known = [], {}
for l in open(path):
    if l.startswith('fixed:'):
        w = l.split(' ', 3)
        known[w[3].strip()] = w[1].split('=')[1]
    else:
        head.append(l)
import sys
extra = dict(a.split('=', 1)[::-1] for a in sys.argv[1:])     # C10=text-prefix
out = head
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        p = known.get(s) or next((v for k, v in extra.items() if s.startswith(k)), None)
        if p is None:
            sys.exit('no property for: ' + s)
        out.append(f'fixed: property={p} {h} {s}\n')
open(path, 'w').write(''.join(out))
