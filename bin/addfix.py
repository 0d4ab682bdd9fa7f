"""addfix.py KEY PROP TEXT: map a fix commit of /repo (by a part of its subject) and regenerate known_findings.txt"""
import json, sys, subprocess
p = '/verif/bin/fixes.json'
d = json.load(open(p)); d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(d, open(p, 'w'), indent=1)
subprocess.check_call([sys.executable, '/verif/bin/kf.py'])
