"""addfix.py PROPERTY COMMIT TEXT: records a repair in known_findings.json"""
import json, os, subprocess, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(f))
p, h = sys.argv[1:3]
h = subprocess.run(['git', '-C', '/repo', 'rev-parse', '--short', h], capture_output=True, text=True).stdout.strip()
s = sys.argv[3] if len(sys.argv) > 3 else subprocess.run(
    ['git', '-C', '/repo', 'log', '-1', '--format=%s', h], capture_output=True, text=True).stdout.strip()[5:]
d['findings'].append({'property': p, 'id': 'fix-' + h, 'status': 'fixed', 'text': 'fixed: property=%s %s %s' % (p, h, s)})
json.dump(d, open(f, 'w'), indent=1)
