"""Regenerate the 'fixed:' lines of known_findings.txt from bin/fixes.json and the log of /repo."""
import json, subprocess
M = json.load(open('/verif/bin/fixes.json'))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = [l for l in open('/verif/known_findings.txt').read().splitlines() if not l.startswith('fixed:')]
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'): continue
    for k, (p, w) in M.items():
        if (s + '$').find(k) >= 0: out.append("fixed: property=%s %s %s" % (p, h, w)); break
    else: print("UNMAPPED", l)
open('/verif/known_findings.txt', 'w').write("\n".join(out) + "\n")
