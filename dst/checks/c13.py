"""C13: an ODT package is complete and consistent, or not a package at all."""
import hashlib
import os
import zipfile

from .. import cliwork
from .. import docs
from .. import ref

NS = '{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}'


def state(root, req):
    """what a reader finds at the output path"""
    from lxml import etree
    p = os.path.join(root, 'cwd', req['odt'])
    if not os.path.exists(p):
        return {'is': 'none'}
    with open(p, 'rb') as f:
        h = hashlib.sha1(f.read()).hexdigest()
    try:
        z = zipfile.ZipFile(p)
    except Exception as e:
        return {'is': 'unreadable', 'why': repr(e)[:80], 'sha': h}
    bad, parts, xml = [], {}, {}
    names = z.namelist()
    if len(set(names)) != len(names):
        bad.append('duplicate parts')
    for n in sorted(set(names)):
        try:
            b = z.read(n)
        except Exception as e:
            bad.append('part %s cannot be read: %r' % (n, e))
            continue
        parts[n] = [len(b), hashlib.sha1(b).hexdigest()]
        if n.endswith(('.xml', '.rdf')):
            try:
                t = etree.fromstring(b)
                xml[n] = hashlib.sha1(etree.tostring(t, method='c14n')).hexdigest()
                if n == 'META-INF/manifest.xml':
                    listed = [e.get(NS + 'full-path') for e in t.iter(NS + 'file-entry')]
                    have = set(names) - {'mimetype', 'META-INF/manifest.xml'}
                    for x in sorted(set(listed) - {'/'} - have):
                        bad.append('manifest lists %s, which is missing' % x)
                    for x in sorted(have - set(listed)):
                        bad.append('%s is not listed in the manifest' % x)
            except etree.XMLSyntaxError as e:
                bad.append('part %s is not well-formed: %s' % (n, str(e)[:60]))
    for n in ('mimetype', 'META-INF/manifest.xml', 'content.xml', 'styles.xml'):
        if n not in names:
            bad.append('no %s' % n)
    if 'mimetype' in names and parts.get('mimetype', [0, ''])[1] != hashlib.sha1(
            b'application/vnd.oasis.opendocument.text').hexdigest():
        bad.append('wrong mimetype part')
    return {'is': 'package', 'bad': bad, 'parts': parts, 'xml': xml, 'sha': h}


def expected_bins(req):
    t = docs.tree(req['docs']['d.hwp'])
    out = {}
    for n in sorted(k for k, v in t.get('BinData', {}).items() if isinstance(v, bytes)):
        b = ref.plain_stream(t, 'BinData/' + n)
        out['bindata/' + n] = [len(b), hashlib.sha1(b).hexdigest()]
    return out


def judge(eng, req, rep):
    st = rep['post']
    out = []
    if rep['hang']:
        return [('hang', '%r never ends' % (req['argv'],))]
    what = '%r (exit %s); faults %s %s' % (req['argv'], rep['exit'], rep['fired'], req.get('proc'))
    refr = eng.ref(req)
    if rep['exit'] == 0 and st['is'] != 'package':
        out.append(('success-without-package', 'the output is %s after %s' % (st['is'], what)))
    if st['is'] != 'package':
        return out
    old = (req.get('files') or {}).get('cwd/' + req['odt'])
    if old is not None and st['sha'] == hashlib.sha1(bytes.fromhex(old)).hexdigest():
        return out                  # an earlier package, untouched
    if st['bad']:
        out.append(('inconsistent', 'readable but %s after %s' % ('; '.join(st['bad'][:3]), what)))
    for n, fp in expected_bins(req).items():
        if st['parts'].get(n) != fp:
            out.append(('bindata', 'readable but %s is %s instead of %s after %s' % (n, st['parts'].get(n), fp, what)))
            break
    rs = refr.get('post') or {}
    if rs.get('is') == 'package' and refr['exit'] == 0:
        for n in sorted(set(rs['parts']) | set(st['parts'])):
            if rs['parts'].get(n) != st['parts'].get(n) and not (
                    n in rs['xml'] and rs['xml'].get(n) == st['xml'].get(n)):
                out.append(('differs', 'readable but %s differs from the undisturbed package (%s, %s) after %s' % (
                    n, st['parts'].get(n), rs['parts'].get(n), what)))
                break
    elif refr['exit'] != 0:
        out.append(('package-despite-failure', 'the undisturbed run fails (exit %s) yet a package is left after %s' % (
            refr['exit'], what)))
    return out


judge_named = cliwork.named(judge)


def requests(eng):
    base = []
    for i in range(eng.n(10, 60)):
        rng = eng.rng('docs', i)
        spec = docs.swarm(rng, i % 3 > 0) if i else 'sample-5017.hwp'
        if isinstance(spec, str):
            spec = {'base': spec, 'ops': []}
        if rng.random() < .6:
            spec = dict(spec, ops=spec['ops'] + [['addbin', rng.choice(['BIN0002.jpg', 'BIN0F01.png', 'zz.bin', 'a b&<.png', '\uac00.png']),
                                                  rng.choice([0, 1, 5000, 30000]), i, 'rand']])
        if i % 7 == 5:              # a conversion that fails after the package was started
            spec = dict(spec, ops=spec['ops'] + [['rawname', ['BinData', 'sub', 'x'], 5, 1, 'mix']])
        for nm, argv, kw in (('odt-pkg', ['hwp5odt', '--output', 'o.odt', '../in/d.hwp'], {}),
                             ('odt-embed', ['hwp5odt', '--embed-image', '--output', 'o.odt', '../in/d.hwp'], {}),
                             ('odt-xsltproc', ['hwp5odt', '--output', 'o.odt', '../in/d.hwp'], {'block': ['lxml']})):
            q = dict({'kind': 'cli', 'docs': {'d.hwp': spec}, 'argv': argv, 'odt': 'o.odt', 'wname': nm,
                      'post': ['c13', 'state']}, **kw)
            base.append(q)
    return base


def main(eng):
    base = requests(eng)
    eng.prefetch_refs(base)
    for r in base:
        eng.probes['reference exit %d' % eng.ref(r)['exit']] += 1
        for c, m in judge_named(eng, r, eng.ref(r)):
            eng.violation(c, m, r, judge_named)
    reqs = []
    for i in range(eng.n(900, 20000)):
        rng = eng.rng('fault', i)
        r = base[i % len(base)]
        if rng.random() < .1:
            import io
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w') as z:
                zi = zipfile.ZipInfo('mimetype', (2000, 1, 1, 0, 0, 0))
                z.writestr(zi, b'application/vnd.oasis.opendocument.text')
                zi = zipfile.ZipInfo('junk', (2000, 1, 1, 0, 0, 0))
                z.writestr(zi, bytes(rng.choice([10, 300000])))
            r = dict(r, files={'cwd/o.odt': b.getvalue().hex()})
        rr = eng.ref(r)
        mode = rng.random()
        ops = [e for e in rr['log'] if e[1] not in ('denied', 'mark')]
        outs = [e for e in ops if e[2] == 'out']
        if mode < .4:               # crash
            e = rng.choice(outs if outs and rng.random() < .7 else ops)
            q = dict(r, faults=[{'op': e[0], 'kind': 'crash', 'arg': rng.choice([0, 1, 30, 2000]) if e[1] == 'write' else 0}])
            if rng.random() < .2:
                q = dict(cliwork.plan(rng, r, rr, lambda k, c, x: x[0] < e[0], proc=0) or r, **{})
                q['faults'] = sorted([f for f in q.get('faults', ()) if f['op'] != e[0]] +
                                     [{'op': e[0], 'kind': 'crash', 'arg': 0}], key=lambda f: f['op'])
        else:
            lo = 0
            if rng.random() < .5 and outs:
                want = lambda k, c, x: c == 'out'           # noqa: E731
            else:
                want = lambda k, c, x: True                 # noqa: E731
            q = cliwork.plan(rng, r, rr, want, proc=.4, nmax=3)
        if q:
            reqs.append(q)
    pairs = list(zip(reqs, eng.run(reqs)))
    for q, rep in pairs:
        eng.probes['%s, %s' % (rep['post']['is'], 'crashed' if rep['crashed'] else 'exit %d' % (rep['exit'] != 0))] += 1
        for c, m in judge_named(eng, q, rep):
            eng.violation(c, m, q, judge_named)
    cliwork.sample(eng, pairs)
    eng.finish(rule=cliwork.RULE, components=cliwork.REAL, stubs=cliwork.STUB,
               assumptions=['a crash ends the process; what it had handed to the operating system survives'])
