"""C01: a command's exit status is honest under every fault sequence."""
import hashlib
import os
import re
import zipfile

from .. import cliwork
from .. import docs
from .. import ref
from ..engine import shrink_default

PAGERS = ('less', 'simpager')


def post(root, req):
    """canonical XML digest of the output (for runs whose filter is absent)"""
    from lxml import etree
    p = root + '/io/stdout'
    for a, b in zip(req['argv'], req['argv'][1:]):
        if a == '--output':
            p = os.path.join(root, 'cwd', b)
    try:
        if p.endswith('.odt'):
            h = hashlib.sha1()
            with zipfile.ZipFile(p) as z:
                for n in sorted(z.namelist()):
                    b = z.read(n)
                    if n.endswith('.xml'):
                        b = etree.tostring(etree.fromstring(b), method='c14n')
                    h.update(n.encode() + b'\0' + b)
            return h.hexdigest()
        if os.path.getsize(p) < 5 << 20:
            return hashlib.sha1(etree.tostring(etree.parse(p), method='c14n')).hexdigest()
    except Exception:
        pass
    return None


def expect_content(req):
    """independent reference for commands that must reproduce stored content:
    {path or 'stdout': [size, sha1]}"""
    a = req['argv']
    if 'expect' not in req:
        return None
    spec = req['docs']['d.hwp']
    tree = docs.tree(spec)

    def fp(b):
        return [len(b), hashlib.sha1(b).hexdigest()]

    def put(k, b):
        if k in out:            # under some other name then
            out[k] = out[k] if isinstance(out[k][0], list) else [out[k]]
            out[k].append(fp(b))
        else:
            out[k] = fp(b)
    if req['expect'] == 'cat':
        p = a[-1]
        return {'stdout': fp(docs.getp(tree, p) if '--ole' in a else ref.plain_stream(tree, p))}
    if req['expect'] == 'rawunz':
        return {'stdout': fp(ref.inflate(docs.getp(tree, req['stdin']['stream'])))}
    if req['expect'] == 'records-raw':
        return {'stdout': fp(ref.plain_stream(tree, a[-1]))}
    if req['expect'] == 'records-rawp':
        return {'stdout': fp(b''.join(r[2] for r in ref.parse_records(ref.plain_stream(tree, a[-1]))[0]))}
    if req['expect'] == 'unpack':
        base = a[-1]
        out = {}
        for p in ref.walk(tree):
            b = docs.getp(tree, p) if '--ole' in a else ref.plain_stream(tree, p)
            put(base + '/' + p.replace('\x05', '_05'), b)
        return out
    if req['expect'] == 'bindata':
        out = {}
        for n in sorted(tree.get('BinData', {})):
            if isinstance(tree['BinData'][n], bytes):
                put('o/bindata/' + n.replace('\x05', '_05'), ref.plain_stream(tree, 'BinData/' + n))
        return out


EXPECT = {'cat': 'cat', 'cat-ole': 'cat', 'cat-bin': 'cat', 'rawunz': 'rawunz',
          'records-raw': 'records-raw', 'records-rawp': 'records-rawp', 'unpack': 'unpack',
          'unpack-ole': 'unpack', 'html-dir': 'bindata'}


def spawn_only(req, refr):
    """faults that amount to a tool which is not installed (or whose
    availability probe fails)"""
    sp = refr['spawned']
    return [f if f['mode'] in ('enoent', 'eagain') else {'i': f['i'], 'mode': 'enoent'}
            for f in req.get('proc') or ()
            if f['mode'] in ('enoent', 'eagain') or f['i'] < len(sp) and sp[f['i']].endswith('?')]


def judge(eng, req, rep):
    out = []
    name = ' '.join(req['argv'][:2])
    if rep['hang']:
        out.append(('hang', '%s never ends (faults %s)' % (name, rep['fired'])))
    if rep['exit'] != 0:
        if not SOUND & set(req) and not req['wname'].endswith(('-tree', '-group')) and not (rep['hang'] or rep['crashed']):
            # (there may be no such group)
            out.append(('failure', '%r exits %s although nothing fails: %s' % (req['argv'], rep['exit'], rep['stderr'][-300:])))
        return out
    if req.get('impossible'):
        out.append(('impossible-success', '%r exits 0 although %s' % (req['argv'], req['impossible'])))
        return out
    if req.get('torn'):
        out.append(('torn-success', '%r exits 0 although %s ends inside a record' % (
            req['argv'], req['torn'])))
        return out
    want = expect_content(req)
    if want is not None:
        got = dict(rep['out'], stdout=rep['stdout'])
        clash = any(isinstance(v[0], list) for v in want.values())
        for k, v in sorted(want.items()):
            if clash:           # the names are not settled, the contents are
                v = next((x for x in (v if isinstance(v[0], list) else [v]) if x not in list(got.values())), got.get(k))
            if got.get(k) != v:
                out.append(('incomplete', '%r exits 0 but %s is %s instead of %s; faults %s %s' % (
                    req['argv'], k, got.get(k), v, rep['fired'], req.get('proc'))))
                return out
    if not req.get('faults') and not req.get('proc') and not req.get('stale'):
        return out
    refr = eng.ref(req)
    if refr['exit'] != 0:
        return out
    if rep['stdout'] == refr['stdout'] and rep['out'] == refr['out']:
        return out
    so = spawn_only(req, refr)
    pq = [f for f in req.get('proc') or () if f['mode'] in ('die', 'exit') and
          f['i'] < len(refr['spawned']) and refr['spawned'][f['i']] in PAGERS]
    if pq and rep['out'] == refr['out']:
        return out              # the pager is the user's: quit early or failing, it has shown what it could
    if so:
        # a pretty-printer that is not installed is skipped: same document, not laid out
        alt = eng.run([{k: v for k, v in dict(req, proc=so).items() if k != 'faults'}])[0]
        if alt['exit'] == 0 and rep['stdout'] == alt['stdout'] and rep['out'] == alt['out']:
            if req.get('tty') or alt.get('post') and alt['post'] == refr.get('post'):
                return out
    d = [k for k in sorted(set(rep['out']) | set(refr['out'])) if rep['out'].get(k) != refr['out'].get(k)]
    if rep['stdout'] != refr['stdout']:
        d.append('stdout %s/%s bytes' % (rep['stdout'][0], refr['stdout'][0]))
    out.append(('incomplete', '%r exits 0 but its output differs from the fault-free one in %s; faults %s %s' % (
        req['argv'], d[:4], rep['fired'], req.get('proc'))))
    return out


# names that are the same once they are file names
COLLIDE = [['_05HwpSummaryInformation'], ['BinData/_05x', 'BinData/\x05x'], ['BinData/\x05x_', 'BinData/\x05x', 'BinData/_05x', 'BinData/_05x__']]
SOUND = {'faults', 'proc', 'torn', 'impossible'}
NONDOC = {'text': b'hello world\n' * 100, 'empty': b'', 'zip': b'PK\x03\x04' + bytes(3000), 'magic': b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + bytes(504),
          'half': None, 'missing': None, 'directory': None}


def impossible(rng):
    """a command that cannot produce what it is asked for"""
    d = '../in/d.hwp'
    spec = docs.swarm(rng, True)
    spec = spec if isinstance(spec, dict) else {'base': spec, 'ops': []}
    W = [(n, q) for n, q in cliwork.workloads(rng, spec) if 'd.hwp' in ' '.join(q['argv'])]
    kind = rng.choice(['nondoc', 'nondoc', 'no-header', 'no-stream', 'item'])
    if kind == 'item':
        t = docs.tree(spec)
        body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
        sec = body + '/Section0'
        q = rng.choice([['cat', d, 'Nope'], ['cat', d, body], ['cat', d, body + '/Section99'], ['cat', '--ole', d, 'BinData/none.bin'], ['cat', '--vstreams', d, 'DocInfo.nope'],
                        ['records', d, body + '/Section99'], ['records', d, 'PrvText'], ['models', d, 'Nope'], ['models', d, body], ['records', '--simple', d, 'FileHeader'],
                        ['models', '--treegroup', '9999', d, sec], ['records', '--treegroup', '9999', d, sec], ['find', '--tag=67', d, '../in/none.hwp'],
                        ['find', '--tag=67', '../in/none.hwp', d], ['unpack', d, 'missing/u'], ['xml', '--output', 'missing/o.xml', d]])
        q = {'kind': 'cli', 'docs': {'d.hwp': spec}, 'argv': ['hwp5proc'] + q}
        if rng.random() < .1:
            c = rng.choice(['hwp5txt', 'hwp5html', 'hwp5odt'])
            q['argv'] = [c, '--output', 'missing/o', d]
        return dict(q, wname='item', impossible=' '.join(q['argv'][1:]))
    n, q = rng.choice(W)
    q = dict(q, wname=n)
    if kind == 'nondoc':
        k = rng.choice(sorted(NONDOC))
        b = docs.build(spec)[:rng.choice([100, 511, 512, 600])] if k == 'half' else NONDOC[k]
        q['docs'] = {}
        q['files'] = {} if k == 'missing' else {'in/d.hwp/x': ''} if k == 'directory' else {'in/d.hwp': b.hex()}
        return dict(q, impossible='the input is ' + k)
    if kind == 'no-header':
        if '--ole' in q['argv']:
            return None
        op = rng.choice([['delete', 'FileHeader'], ['rawflip', 'FileHeader', [[rng.randrange(17), 1 << rng.randrange(8)]]], ['addraw', 'FileHeader', rng.choice([0, 10]), 1, 'zero']])
        q['docs'] = {'d.hwp': dict(spec, ops=spec['ops'] + [op])}
        return dict(q, impossible='not a HWP document: %s' % op)
    if not re.match('txt|html|odt|xml|view', n):
        return None
    x = 'DocInfo' if rng.random() < .5 or n.startswith('view') else '\x05HwpSummaryInformation' if n.startswith(('odt', 'xml', 'html-dir')) and 'flat' not in n else 'DocInfo'
    q['docs'] = {'d.hwp': dict(spec, ops=spec['ops'] + [['delete', x]])}
    return dict(q, impossible=x + ' is missing')


def base_requests(eng, key, n, small=True):
    out = cliwork.base_requests(eng, key, n, small)
    for req in out:
        if req['wname'] in EXPECT:
            req['expect'] = EXPECT[req['wname']]
        if req['wname'].startswith('xml') or 'xsltproc' in req['wname']:
            req['post'] = ['c01', 'post']
    return out


def main(eng):
    base = base_requests(eng, 'docs', eng.n(4, 16))
    # further documents, fault-free: content references only
    extra = [r for r in base_requests(eng, 'more', eng.n(8, 60), small=False)[3 * 50:]]
    for ops in COLLIDE:
        rng = eng.rng('collide', ops)
        spec = {'base': rng.choice(docs.GOOD), 'ops': [['addraw', p, 10 + i, i, 'mix'] for i, p in enumerate(ops)]}
        for n, q in cliwork.workloads(rng, spec):
            if n in ('unpack', 'unpack-ole', 'html-dir', 'unpack-default'):
                extra.append(dict(q, wname=n, expect=EXPECT[n]) if n in EXPECT else dict(q, wname=n))
    eng.prefetch_refs(base + extra)
    for r in base + extra:
        for c, m in judge(eng, r, eng.ref(r)):
            eng.violation(c, m, r, judge)
    ok = [r for r in base if eng.ref(r)['exit'] == 0]
    eng.extra['workloads_reference_ok'] = len(ok)
    eng.extra['workloads_reference_failing'] = sorted({r['wname'] for r in base if eng.ref(r)['exit'] != 0})
    reqs = []
    byname = {}
    for r in ok:
        byname.setdefault(r['wname'], []).append(r)
    n = eng.n(1500, 20000)
    names = sorted(byname)
    for i in range(n):
        rng = eng.rng('fault', i)
        r = rng.choice(byname[names[i % len(names)]])
        rr = eng.ref(r)
        q = cliwork.plan(rng, r, rr)
        if rng.random() < .15:
            q = cliwork.earlier(rng, q or r, rr)
        if q:
            reqs.append(q)
    for i in range(eng.n(130, 1500)):
        rng = eng.rng('choppy', i)
        r = rng.choice(byname[names[i % len(names)]])
        q = cliwork.choppy(rng, r, eng.ref(r))
        if q:
            reqs.append(q)
    # stored data that ends inside a record: conversion must not report success
    torn = []
    for i in range(eng.n(90, 900)):
        rng = eng.rng('torn', i)
        b = rng.choice(docs.GOOD)
        t = docs.base_tree(b)
        body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
        ops = []
        if body == 'BodyText' and rng.random() < .5:
            ops = [['dupsection', rng.choice([2, 3])]]
        t = docs.tree({'base': b, 'ops': ops})
        path = rng.choice(['DocInfo', body + '/' + rng.choice(sorted(x for x in t[body] if x.startswith('Section')))])
        plain = ref.plain_stream(t, path)
        recs, tn = ref.parse_records(plain)
        k = rng.randrange(len(recs))
        off = len(ref.encode_records(recs[:k]))
        size = len(ref.encode_record(*recs[k]))
        cut = off + rng.choice([1, 2, 3, size - 1, size // 2, min(size - 1, 5)])
        if cut <= off or cut >= off + size:
            continue
        if docs.flags(t) & 4:
            cut = off + 4 if size > 40 else 0       # the cipher pads to 16 bytes
            continue
        spec = {'base': b, 'ops': ops + [['cut', path, cut]]}
        W = dict(cliwork.workloads(rng, spec, docs.tree({'base': b, 'ops': ops})))
        for nm in rng.sample(['txt-stdout', 'txt-file', 'html-dir', 'html-html', 'odt-pkg', 'odt-doc', 'xml', 'xml-raw',
                              'records', 'records-raw', 'models', 'models-simple', 'models-events', 'find'], 4):
            q = dict(W[nm], wname=nm)
            if nm.startswith(('records', 'models')):
                q['argv'] = q['argv'][:-1] + [path]
            if nm == 'find' and path == 'DocInfo':
                pass
            q['torn'] = path
            torn.append(q)
    reqs += torn
    for i in range(eng.n(220, 3000)):
        q = impossible(eng.rng('impossible', i))
        if q:
            eng.fired['impossible request'] += 1
            reqs.append(q)
    reps = eng.run(reqs)
    # the alternative references needed by judge
    for q, rep in zip(reqs, reps):
        eng.probes['exit0' if rep['exit'] == 0 else 'exit!=0'] += 1
        if not rep['fired'] and not q.get('proc') and not q.get('torn') and not q.get('stale') and not q.get('impossible'):
            eng.probes['fault-not-reached'] += 1
        for c, m in judge(eng, q, rep):
            eng.violation(c + ':' + q['wname'], m, q, judge_named)
    for q, rep in list(zip(reqs, reps))[::max(1, len(reqs) // 8)]:
        eng.samples.append('%s faults=%s proc=%s -> exit %s' % (
            ' '.join(q['argv']), rep['fired'], q.get('proc'), rep['exit']))
    eng.finish(
        rule='distinct digests of the numbered I/O event log (operation, class, result, injected fault)',
        assumptions=['faults are those the operating system reports to the process; a damaged input that reads '
                     'back without an error is covered only where the record framing exposes it',
                     'a pager the user quits early is not a failure'],
        components='all hwp5 code, CPython I/O stack, olefile, lxml/libxslt, zipfile, xmllint (real binary, run synchronously)',
        stubs='pager (copy), process scheduling, clock, randomness, directory order, terminal detection')


def judge_named(eng, req, rep):
    return [(c + ':' + req['wname'], m) for c, m in judge(eng, req, rep)]
