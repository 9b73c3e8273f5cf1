"""Rewrites the generated parts of DESIGN.md: repaired defects (known_findings.json)
and planted bugs (seeded/*/meta.json, tools/caught.json)."""
import collections
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fixes():
    by = collections.OrderedDict()
    with open(V + '/known_findings.json') as f:
        for k in sorted(json.load(f)['findings'], key=lambda k: k['property']):
            c, t = k['text'].split(' ', 2)[2].split(' ', 1)
            by.setdefault(k['property'], []).append('  * `%s` %s' % (c, t))
    return '\n'.join('* **%s**\n%s' % (p, '\n'.join(x)) for p, x in by.items())


def matrix():
    with open(V + '/tools/caught.json') as f:
        caught = json.load(f)
    out = ['| planted bug | needs | caught by |', '|---|---|---|']
    for i in sorted(os.listdir(V + '/seeded')):
        with open(V + '/seeded/' + i + '/meta.json') as f:
            m = json.load(f)
        out.append('| %s | %s | %s |' % (i, m['needs'], caught.get(i, '**not yet**')))
    return '\n'.join(out)


with open(V + '/DESIGN.md') as f:
    s = f.read()
for tag, text in (('fixes', fixes()), ('matrix', matrix())):
    s = re.sub('<!-- %s -->.*<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, text, tag), s, flags=re.S)
with open(V + '/DESIGN.md', 'w') as f:
    f.write(s)
