"""Command-line workloads and fault planning shared by the checks."""
import errno

from . import docs
from . import ref

E = errno


def workloads(rng, spec, tree=None):
    """every documented way to run the commands on one document"""
    t = tree if tree is not None else docs.tree(spec)
    dist = docs.flags(t) & 4
    body = 'ViewText' if dist else 'BodyText'
    sec = sorted(k for k, v in t.get(body, {}).items() if isinstance(v, bytes))
    bins = sorted(k for k, v in t.get('BinData', {}).items() if isinstance(v, bytes))
    d = '../in/d.hwp'
    W = []

    def w(name, argv, **k):
        W.append((name, dict({'kind': 'cli', 'docs': {'d.hwp': spec}, 'argv': argv}, **k)))
    w('txt-stdout', ['hwp5txt', d])
    w('txt-file', ['hwp5txt', '--output', 'o.txt', d])
    w('html-dir', ['hwp5html', '--output', 'o', d])
    w('html-dir-default', ['hwp5html', d])
    w('html-html', ['hwp5html', '--html', d])
    w('html-html-file', ['hwp5html', '--html', '--output', 'o.xhtml', d])
    w('html-css', ['hwp5html', '--css', d])
    w('html-css-file', ['hwp5html', '--css', '--output', 'o.css', d])
    w('odt-pkg', ['hwp5odt', '--output', 'o.odt', d])
    w('odt-pkg-default', ['hwp5odt', d])
    w('odt-pkg-embed', ['hwp5odt', '--embed-image', '--output', 'o.odt', d])
    w('odt-styles', ['hwp5odt', '--styles', '--output', 'o.xml', d])
    w('odt-content', ['hwp5odt', '--content', d])
    w('odt-doc', ['hwp5odt', '--document', '--output', 'o.fodt', d])
    w('odt-doc-noembed', ['hwp5odt', '--document', '--no-embed-image', d])
    w('xml', ['hwp5proc', 'xml', d])
    w('xml-file', ['hwp5proc', 'xml', '--output', 'o.xml', d])
    w('xml-embed', ['hwp5proc', 'xml', '--embedbin', '--no-xml-decl', d])
    w('xml-raw', ['hwp5proc', 'xml', '--no-validate-wellformed', '--output', 'o.xml', d])
    w('xml-tty', ['hwp5proc', 'xml', d], tty=2)
    w('html-tty', ['hwp5html', '--html', d], tty=2, env={'PAGER': rng.choice(['', 'simpager -x'])})
    w('css-tty', ['hwp5html', '--css', d], tty=2)
    w('xml-flat', ['hwp5proc', 'xml', '--format', 'flat', d])
    w('html-dir-noxml', ['hwp5html', '--output', 'o', d], block=['lxml'])
    w('txt-xsltproc', ['hwp5txt', '--output', 'o.txt', d], block=['lxml'])
    w('odt-xsltproc', ['hwp5odt', '--output', 'o.odt', d], block=['lxml'])
    w('view', ['hwp5view', d], alias={'gi.repository.Gtk': 'dst.stubgtk', 'gi.repository.WebKit': 'dst.stubgtk'})
    w('version', ['hwp5proc', 'version', d])
    w('header', ['hwp5proc', 'header', d])
    w('summaryinfo', ['hwp5proc', 'summaryinfo', d])
    w('ls', ['hwp5proc', 'ls', d])
    w('ls-v', ['hwp5proc', 'ls', '--vstreams', d])
    w('ls-ole', ['hwp5proc', 'ls', '--ole', d])
    leaf = rng.choice([p for p in ref.walk(t) if '\x05' not in p])
    w('cat', ['hwp5proc', 'cat', d, leaf])
    w('cat-ole', ['hwp5proc', 'cat', '--ole', d, leaf])
    if bins:
        w('cat-bin', ['hwp5proc', 'cat', d, 'BinData/' + rng.choice(bins)])
    w('cat-v', ['hwp5proc', 'cat', '--vstreams', d, rng.choice(
        ['DocInfo.records', 'DocInfo.models', 'PrvText.utf8', 'FileHeader.txt', body + '.xml',
         body + '/' + sec[-1] + '.xml', body + '/' + sec[-1] + '.records',
         body + '/' + sec[-1] + '.models'])])
    w('unpack', ['hwp5proc', 'unpack', d, 'u'])
    w('unpack-default', ['hwp5proc', 'unpack', d])
    w('unpack-v', ['hwp5proc', 'unpack', '--vstreams', d, 'u'])
    w('unpack-ole', ['hwp5proc', 'unpack', '--ole', d, 'u'])
    st = rng.choice(['DocInfo', body + '/' + sec[-1]])
    w('records', ['hwp5proc', 'records', d, st])
    w('records-simple', ['hwp5proc', 'records', '--simple', d, st])
    w('records-raw', ['hwp5proc', 'records', '--raw', d, st])
    w('records-rawh', ['hwp5proc', 'records', '--raw-header', d, st])
    w('records-rawp', ['hwp5proc', 'records', '--raw-payload', d, st])
    w('records-range', ['hwp5proc', 'records', '--raw', '--range', '2-6', d, st])
    w('records-group', ['hwp5proc', 'records', '--treegroup', '0', d, 'docinfo' if rng.random() < .5 else st])
    w('records-stdin', ['hwp5proc', 'records', '--simple'], stdin={'doc': spec, 'stream': st, 'plain': 1})
    w('models', ['hwp5proc', 'models', d, st])
    w('models-seqno', ['hwp5proc', 'models', '--seqno', '2', d, st])
    w('models-format', ['hwp5proc', 'models', '--format', '%(tagname)s %(level)s\\n', d, st])
    w('models-simple', ['hwp5proc', 'models', '--simple', d, st])
    w('models-events', ['hwp5proc', 'models', '--events', d, st])
    w('models-tree', ['hwp5proc', 'models', '--treegroup', '1', d, st])
    w('models-stdin', ['hwp5proc', 'models', '--simple', '-V', '5.0.1.7'],
      stdin={'doc': spec, 'stream': st, 'plain': 1})
    w('find', ['hwp5proc', 'find', '--tag=HWPTAG_PARA_TEXT', d])
    w('find-two', ['hwp5proc', 'find', '--incomplete', '--format', '%(filename)s %(seqno)s', d, d])
    w('find-stdin', ['hwp5proc', 'find', '--from-stdin', '--tag', '67'], stdin={'hex': (d + '\n').encode().hex()})
    w('find-dump', ['hwp5proc', 'find', '--model=Paragraph', '--dump', d])
    cp = [p for p in docs.compressed_paths(t)]
    if docs.flags(t) & 1 and not docs.flags(t) & 4:
        p = rng.choice(cp)
        w('rawunz', ['hwp5proc', 'rawunz'], stdin={'doc': spec, 'stream': p})
    if dist:
        w('diststream', ['hwp5proc', 'diststream'], stdin={'doc': spec, 'stream': 'ViewText/Section0'})
        w('txt-openssl', ['hwp5txt', d], block=['cryptography'])
        w('cat-openssl', ['hwp5proc', 'cat', d, 'ViewText/Section0'], block=['cryptography'])
        w('diststream-sha1', ['hwp5proc', 'diststream', '--sha1'], stdin={'doc': spec, 'stream': 'ViewText/Section0'})
        w('diststream-key', ['hwp5proc', 'diststream', '--key'], stdin={'doc': spec, 'stream': 'ViewText/Section0'})
    return W


READ_ERR = [E.EIO, E.EIO, E.ESTALE, E.ENOMEM]
WRITE_ERR = [E.ENOSPC, E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG]
OPEN_ERR = [E.EACCES, E.EMFILE, E.ENFILE, E.EIO, E.ENOSPC, E.EROFS]


def groups(log, want=None):
    """reference operations grouped by (kind, class)"""
    g = {}
    for e in log:
        op, kind, cls = e[0], e[1], e[2]
        if kind in ('denied',):
            continue
        if want and not want(kind, cls, e):
            continue
        g.setdefault((kind, cls), []).append(e)
    return g


def pick(rng, g):
    """an operation: first a (kind, class), then one of its operations,
    biased towards the first, the last and the boundaries"""
    k = rng.choice(sorted(g))
    ops = g[k]
    r = rng.random()
    if r < .25:
        return ops[-1]
    if r < .4:
        return ops[0]
    return rng.choice(ops)


def fault_for(rng, e, allow=('err', 'short', 'closelost', 'sticky', 'eintr', 'int')):
    op, kind, cls = e[0], e[1], e[2]
    path = e[8]
    if kind == 'read':
        c = [('err', rng.choice(READ_ERR)), ('err', E.EIO), ('short', rng.choice([1, 7, 511, 2048])), ('eintr', 0), ('int', 0)]
    elif kind == 'write':
        c = [('err', rng.choice(WRITE_ERR)), ('sticky', rng.choice([E.ENOSPC, E.EIO, E.EDQUOT])),
             ('short', rng.choice([1, 3, 100, 4000])), ('eintr', 0), ('int', 0)]
        if cls == 'stdout':
            c += [('err', E.EPIPE), ('sticky', E.EPIPE)]
    elif kind in ('openr', 'openw'):
        c = [('err', rng.choice(OPEN_ERR))] * 2 + [('eintr', 0), ('int', 0)]
    elif kind == 'close':
        if cls in ('out', 'tmp') and rng.random() < .8:
            c = [('closelost', rng.choice([1, 100, 4096, 1 << 30]))]
        else:
            c = [('err', E.EIO)]
    elif kind in ('unlink', 'rmdir'):
        c = [('err', rng.choice([E.EACCES, E.EBUSY, E.EIO, E.EROFS]))]
    elif kind in ('mkdir', 'rename', 'fsync', 'trunc', 'link'):
        c = [('err', rng.choice([E.EACCES, E.ENOSPC, E.EIO, E.EROFS]))] * 2 + [('int', 0)]
    elif kind == 'mark':
        if path.startswith(('pipe-write:', 'pipe-read:')):
            c = [('err', E.EIO), ('int', 0)]
        elif path.startswith('wait:'):
            c = [('int', 0)]
        else:
            return None
    else:
        return None
    c = [x for x in c if x[0] in allow]
    if not c:
        return None
    k, a = rng.choice(c)
    return {'op': op, 'kind': k, 'arg': a}


def proc_fault(rng, spawned, pagers=('less', 'simpager'), outlen=0):
    if not spawned:
        return None
    i = rng.randrange(len(spawned))
    name = spawned[i]
    modes = ['enoent', 'eagain', 'exit', 'exit', 'die', 'die']
    m = rng.choice(modes)
    f = {'i': i, 'mode': m}
    if m == 'die':
        f['after'] = rng.choice([0, 1, 100, 4096, 20000, 70000])
        f['out'] = rng.choice([0, 0, 10, 1000, 30000])
        f['rc'] = rng.choice([-9, -11, -15, 1]) if name not in pagers else rng.choice([0, 0, 1])
    elif m == 'exit':
        f['out'] = rng.choice([0, 10, 1000, 30000])
        f['rc'] = rng.choice([1, 2, 5, -6])
    return f


def base_requests(eng, key, ndocs, small=True, tweak=None):
    """all workloads on ndocs documents (the first three fixed, the rest drawn)"""
    out = []
    for i in range(ndocs):
        rng = eng.rng(key, i)
        spec = docs.swarm(rng, small) if i else 'sample-5017.hwp'
        if i == 1:
            spec = {'base': 'viewtext.hwp', 'ops': [['dupsection', 2]]}
        if i == 2:
            spec = {'base': 'lists.hwp', 'ops': [['uncompress'], ['addbin', 'BIN0101.bin', 9000, 5, 'rand']]}
        for name, req in workloads(rng, spec):
            req['wname'] = name
            out.append(req)
    return out


def by_name(reqs):
    d = {}
    for r in reqs:
        d.setdefault(r['wname'], []).append(r)
    return d


def plan(rng, r, rr, want=lambda k, c, e: c not in ('stderr', 'stdin') or k == 'read', proc=.6,
         allow=('err', 'short', 'closelost', 'sticky', 'eintr', 'int'), nmax=2):
    """the request r with a fault sequence placed on the operations of its
    fault-free execution rr; None if nothing could be placed"""
    q = dict(r)
    if rr['spawned'] and rng.random() < proc:
        q['proc'] = [proc_fault(rng, rr['spawned'])]
        if rng.random() < .2:
            p2 = proc_fault(rng, rr['spawned'])
            if p2['i'] != q['proc'][0]['i']:
                q['proc'].append(p2)
    g = groups(rr['log'], want)
    fs = []
    n = rng.choice([1, 1, 1] + list(range(2, nmax + 1))) if 'proc' not in q else rng.choice([0, 0, 1])
    for _ in range(n * 4):
        if len(fs) >= n or not g:
            break
        f = fault_for(rng, pick(rng, g), allow)
        if f and all(f['op'] != x['op'] for x in fs):
            fs.append(f)
    if rng.random() < .15 and fs and fs[0]['kind'] == 'short' and 'err' in allow:
        fs.append({'op': fs[0]['op'] + 1, 'kind': 'err', 'arg': 28})
    if fs:
        q['faults'] = sorted(fs, key=lambda f: f['op'])
    if fs or 'proc' in q:
        return q


def choppy(rng, r, rr, n=32):
    """the request r with a device that takes (and delivers) a few bytes at a
    time for a while: `n` consecutive operations are cut short"""
    ops = [e[0] for e in rr['log'] if e[1] == 'write' and e[2] in ('out', 'stdout')]
    if not ops:
        return None
    k = ops[0] if rng.random() < .4 else rng.choice(ops)
    q = dict(r)
    q['faults'] = [{'op': k + j, 'kind': 'short', 'arg': rng.choice([1, 3, 7, 100, 1000, 4000])} for j in range(n)]
    return q


def earlier(rng, q, rr):
    """with files of an earlier run where the outputs go"""
    fs = {k: v for k, v in rr['out'].items() if v and v[0] != 'link'}
    if not fs:
        return q
    return dict(q, stale={k: max(1, int(v[0] * rng.choice([.5, 1, 1.2, 2])) + rng.choice([0, 1, 100, 5000]))
                          for k, v in fs.items() if rng.random() < .8})


def stripped(req):
    return {k: v for k, v in req.items() if k not in ('faults', 'proc', 'stale')}


REAL = 'all hwp5 code, CPython I/O stack, olefile, lxml/libxslt, zipfile, xmllint/xsltproc/openssl (real binaries, run synchronously)'
STUB = 'pager (copy), Gtk and WebKit, process scheduling, clock, randomness, directory order, terminal detection'
RULE = 'distinct digests of the numbered I/O event log (operation, class, result, injected fault)'


def sample(eng, pairs, n=8):
    for q, rep in pairs[::max(1, len(pairs) // n)][:12]:
        eng.samples.append('%s faults=%s proc=%s -> exit %s' % (
            ' '.join(q['argv']), rep['fired'], q.get('proc'), rep['exit']))


def named(judge):
    def j(eng, req, rep):
        return [(c + ':' + req['wname'], m) for c, m in judge(eng, req, rep)]
    return j
