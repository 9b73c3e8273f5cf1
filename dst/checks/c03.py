"""C03: only the declared output is written, whatever the names in the document."""
import hashlib
import re

from .. import cliwork
from .. import docs

KEEP = {'cwd/keep.txt': '6b656570', 'cwd/bindata/keep.png': '00', 'in/keep.bin': '6b31', 'in/sub/x.hwp': '6b32',
        'tmp/keepme': '6b33', 'io/keep': '6b34', 'cwd/d.css': '01', 'cwd/Contents': '02'}

NAMES = ['..', '.', '../e', '../../e', '../in/d.hwp', '../in/keep.bin', '/tmp/e', '/e', '/', '//e', 'a/../../e', '..\\e',
         'a\\b', '\\', '~', '~/e', '$HOME', '*', '-rf', '--output', 'con', 'nul', 'a:b', 'x\ny', 'x\0y', '\x01e', '\x05e',
         '_05e', 'bin0001.png', 'BIN0001.PNG', 'index.xhtml', '../index.xhtml', 'styles.css', '../styles.css', '../..',
         '.../e', '\u202e/e', '\uff0e\uff0e/e', '..\0', '../keep.txt', '../../keep.txt', '../bindata/keep.png',
         '../../tmp/keepme', '../tmp/keepme', 'x' * 31, '\ud55c\uae00/../../e', '..', '. .', ' ', '..%2fe', '%2e%2e/e']


def hostile(rng):
    ops = []
    for _ in range(rng.randrange(1, 5)):
        top = rng.choice([['BinData'], ['BinData'], ['BinData'], [], [], ['Scripts'], ['BodyText'], ['DocOptions']])
        segs = top + [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        ops.append(['rawname', segs, rng.choice([0, 5, 70, 5000]), rng.randrange(99), 'mix'])
    return ops


def declared(req):
    """regular expression of what may appear or change below the working directory"""
    a = req['argv']
    out = None
    for x, y in zip(a, a[1:]):
        if x == '--output':
            out = y
    w = req['wname']
    if w == 'unpack-default':
        return r'd(/.*)?$'
    if w.startswith('unpack'):
        return r'u(/.*)?$'
    if w == 'html-dir-default':
        return r'd(/(index\.xhtml|styles\.css|bindata(/.*)?|))?$'
    if w.startswith('html-dir'):
        return r'o(/(index\.xhtml|styles\.css|bindata(/.*)?|))?$'
    if w == 'odt-pkg-default':
        return r'd\.odt$'
    if out:
        return re.escape(out) + '$'
    return r'(?!)'


def judge(eng, req, rep):
    out = []
    if rep['hang'] or rep.get('timeout'):
        return [('hang', '%r never ends' % (req['argv'],))]
    # with its directory unusable, tempfile probes the other standard ones
    denied = [p for p in rep['denied'] if not re.match(r'(/tmp|/var/tmp|/usr/tmp)/(tmp)?[a-z0-9_]{8}$', p)]
    if denied:
        out.append(('escape', '%r tries to change %s; faults %s' % (req['argv'], denied[:3], rep['fired'])))
    if not rep['inputs_same'] or rep['in_new'] and req.get('cwd', 'cwd') == 'cwd':
        out.append(('input-changed', '%r changes the input or its directory (%s); faults %s' % (
            req['argv'], rep['in_new'][:3], rep['fired'])))
    if sorted(rep['root']) != ['cwd', 'in', 'io', 'tmp'] or rep['io_new'] != ['keep']:
        out.append(('escape', '%r creates or removes something outside its output: %s %s' % (
            req['argv'], rep['root'], rep['io_new'])))
    if 'keepme' not in rep['tmp']:
        out.append(('escape', '%r removes a temporary file that is not its own' % (req['argv'],)))
    if req.get('trap') == 'self':
        return out
    ok = declared(req)
    names = rep['out']
    have = {k[4:]: v for k, v in req['files'].items() if k.startswith('cwd/')}
    for n in sorted(names):
        b = n.rstrip('/')
        if re.match(ok, b, re.S) or re.match(r'(tmp)?[a-z0-9_]{8}$', b):
            continue
        if n in have or any(x.startswith(n) for x in have if n.endswith('/')):
            continue
        out.append(('stray', '%r writes %r, not part of its output; faults %s' % (req['argv'], n, rep['fired'])))
        break
    for n, hx in sorted(have.items()):
        b = bytes.fromhex(hx)
        if rep['out'].get(n) != [len(b), hashlib.sha1(b).hexdigest()]:
            out.append(('stray', '%r changes or removes %s; faults %s' % (req['argv'], n, rep['fired'])))
    return out


judge_named = cliwork.named(judge)
WRITERS = ('txt-file', 'html-dir', 'html-dir-default', 'html-html-file', 'html-css-file', 'odt-pkg', 'odt-pkg-default',
           'odt-pkg-embed', 'odt-styles', 'odt-doc', 'xml-file', 'xml-raw', 'unpack', 'unpack-default', 'unpack-v',
           'unpack-ole', 'odt-xsltproc', 'html-dir-noxml')


def main(eng):
    base = []
    for i in range(eng.n(30, 260)):
        rng = eng.rng('docs', i)
        b = rng.choice(docs.GOOD)
        spec = {'base': b, 'ops': hostile(rng) if i % 5 else []}
        t = docs.base_tree(b)
        ws = cliwork.workloads(rng, spec, t)
        pick = [w for w in ws if w[0].startswith('unpack')] + [w for w in ws if w[0] in ('html-dir', 'odt-pkg')]
        rest = [w for w in ws if w not in pick]
        hot = [w for w in rest if w[0] in WRITERS]
        pick += rng.sample(hot, min(3, len(hot))) + rng.sample(rest, 4)
        for name, req in pick:
            req = dict(req, wname=name, files=KEEP)
            base.append(req)
            if name.endswith('-default') and rng.random() < .5:     # the same names, in use beside the input
                near = {'in/d/mine.txt': '0b', 'in/d/index.xhtml': '0c', 'in/d/FileHeader': '0d', 'in/d/BodyText/Section0': '0e',
                        'in/d/bindata/mine.png': '0f', 'in/d.odt': '10', 'in/d.xhtml': '11', 'in/d.hwp5/x': '12'}
                near = {k: v for k, v in near.items() if rng.random() < .6} or {'in/d/mine.txt': '0b', 'in/d.odt': '10'}
                base.append(dict(req, files=dict(KEEP, **near)))
            if name in ('html-dir', 'unpack', 'html-dir-default') and rng.random() < .4:
                old = 'o' if name == 'html-dir' else 'u' if name == 'unpack' else 'd'
                base.append(dict(req, files=dict(KEEP, **{'cwd/%sld/keep' % old: '05', 'cwd/%s.bak' % old: '06'})))
            if name.startswith('unpack') and rng.random() < .5:     # a directory that is in use
                u = 'cwd/d/' if name == 'unpack-default' else 'cwd/u/'
                had = {u + 'mine.txt': '07', u + 'BinData/mine.png': '08', u + 'BodyText/Section99x': '09', u + 'deep/er/mine': '0a'}
                had = {k: v for k, v in had.items() if rng.random() < .7} or {u + 'mine.txt': '07'}
                base.append(dict(req, files=dict(KEEP, **had)))
    # the input itself where the output would go
    for i in range(eng.n(3, 20)):
        rng = eng.rng('self', i)
        b = rng.choice(docs.GOOD)
        for nm, argv in (('txt', ['hwp5txt', '--output', 'D', 'D']), ('html', ['hwp5html', '--output', '.', 'D']),
                         ('html2', ['hwp5html', 'q/q.hwp']), ('html3', ['hwp5html', '--output', 'D', 'D']),
                         ('html4', ['hwp5html', '--html', '--output', 'D', 'D']), ('html5', ['hwp5html', 'q/noext']),
                         ('html6', ['hwp5html', '--output', '../in', 'D']), ('html7', ['hwp5html', '--css', '--output', './D', 'D']),
                         ('odt', ['hwp5odt', 'x.odt']), ('odt2', ['hwp5odt', '--output', 'x.odt', './x.odt']),
                         ('odt3', ['hwp5odt', '--document', '--output', 'D', '../in/D']),
                         ('xml', ['hwp5proc', 'xml', '--output', 'D', 'D']), ('unp', ['hwp5proc', 'unpack', 'noext']),
                         ('unp2', ['hwp5proc', 'unpack', 'q/q.hwp'])):
            base.append({'kind': 'cli', 'cwd': 'in', 'trap': 'self', 'wname': 'self-' + nm, 'files': KEEP, 'argv':
                         [x.replace('D', 'D.hwp') for x in argv],
                         'docs': {'D.hwp': b, 'q/q.hwp': b, 'q/noext': b, 'noext': b, 'x.odt': b}})
    eng.prefetch_refs(base)
    for r in base:
        rep = eng.ref(r)
        eng.probes['reference exit %d' % rep['exit']] += 1
        for c, m in judge_named(eng, r, rep):
            eng.violation(c, m, r, judge_named)
    byn = cliwork.by_name([r for r in base if r['wname'] in WRITERS])
    reqs = []
    for i in range(eng.n(700, 12000)):
        rng = eng.rng('fault', i)
        r = rng.choice(byn[rng.choice(sorted(byn))])
        q = cliwork.plan(rng, r, eng.ref(r), proc=.3)
        if q:
            reqs.append(q)
    pairs = list(zip(reqs, eng.run(reqs)))
    for q, rep in pairs:
        for c, m in judge_named(eng, q, rep):
            eng.violation(c, m, q, judge_named)
    cliwork.sample(eng, pairs)
    eng.finish(rule=cliwork.RULE + '; documents carry generated hostile names', components=cliwork.REAL, stubs=cliwork.STUB + '; writes outside the scratch root are refused and recorded',
               assumptions=['an existing directory given (or implied) as the output of hwp5html is replaced by design'])
