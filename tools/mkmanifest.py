"""regenerates MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
NOTE = {}
exec(open(V + '/tools/notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/dst/checks/%s.py' % i.lower()):
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                       'technique': TECH.get(i, 'deterministic simulation, seeded fault injection'),
                       'level': 'exploration', 'level_note': NOTE.get(i, DEFAULT)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './check.sh --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the seams are an LD_PRELOAD library between the process and the operating '
                    'system and a stand-in for subprocess.Popen, both outside /repo.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
