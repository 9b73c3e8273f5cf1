"""C12: losing an optional component does not change the result."""
import hashlib
import io
import os
import re
import zipfile

from .. import cliwork
from .. import docs
from .. import lib
from .. import readers
from .. import ref
from .c09 import digest

FILTERED = re.compile(r'xml|html|odt')


# -- equivalence of outputs ----------------------------------------------------

def norm_xml(b, tty):
    etree = ref.etree
    if tty:
        b = re.sub(rb'\x1b\[[0-9;]*m', b'', b)
    try:
        t = etree.fromstring(b, etree.XMLParser(huge_tree=True, resolve_entities=False))
    except Exception:
        return re.sub(rb'\s+', b' ', b) if tty else b.rstrip(b'\n')
    o = io.BytesIO()
    t.getroottree().write_c14n(o)
    x = o.getvalue()
    return re.sub(rb'>\s+', b'>', re.sub(rb'\s+<', b'<', x)) if tty else x


def norm_file(name, b, tty=False):
    if b[:2] == b'PK':
        try:
            with zipfile.ZipFile(io.BytesIO(b)) as z:
                return repr(sorted((i, norm_file(i, z.read(i))) for i in z.namelist())).encode()
        except Exception:
            return b
    if b.lstrip()[:1] in (b'<', b'\x1b'):
        return norm_xml(b, tty)
    if tty:
        return re.sub(rb'\x1b\[[0-9;]*m', b'', b).rstrip(b'\n')
    return b


def norm(root, req):
    """in the fork server, after the run: what was delivered, up to equivalence"""
    out = {}
    with open(root + '/io/stdout', 'rb') as f:
        b = f.read()
    out['stdout'] = hashlib.sha1(norm_file('', b, bool(req.get('tty')))).hexdigest()
    for d, ds, fs in os.walk(root + '/cwd'):
        ds.sort()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = ''
        for x in sorted(fs):
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                b = f.read()
            out[os.path.relpath(p, root)] = hashlib.sha1(norm_file(x, b)).hexdigest()
    return out


# -- configurations ------------------------------------------------------------

def config(rng):
    """what is missing, broken or renamed on the simulated machine"""
    c = {}
    block, noexe, broken = [], [], {}
    for m, p in (('lxml', .5), ('olefile', .4), ('cryptography', .4), ('pygments', .15)):
        if rng.random() < p:
            r = rng.random()
            if r < .6:
                block.append(m)
            else:
                broken[m] = 'ImportError' if r < .9 or m in ('lxml',) and r < .95 else rng.choice(['OSError', 'RuntimeError', 'AttributeError'])
    if rng.random() < .15:
        block.append('gi')
    for x, p in (('xsltproc', .2), ('xmllint', .35), ('openssl', .15), ('less', .1)):
        if rng.random() < p:
            noexe.append(x)
    env, exe = {}, {}
    if rng.random() < .15:
        env['PYHWP_XSLTPROC'] = 'my-xsltproc'
        exe['my-xsltproc'] = 'xsltproc'
    if rng.random() < .1:
        env['PYHWP_XMLLINT'] = 'my-xmllint'
        exe['my-xmllint'] = 'xmllint'
    if 'olefile' in block and rng.random() < .2:
        c['alias'] = {'OleFileIO_PL': 'olefile'}
    for k, v in (('block', block), ('noexe', noexe), ('broken', broken), ('env', env), ('exe', exe)):
        if v:
            c[k] = v
    if not c:
        return config(rng)
    return c


def lost(q):
    """names of the components that are not usable"""
    return set(q.get('block') or ()) | set(q.get('broken') or ()) | set(q.get('noexe') or ())


def providers(q):
    """is there a provider left for everything that may be needed: the ones
    that fail otherwise than with ImportError need not be recognised"""
    l = lost(q)
    if any(v != 'ImportError' for v in (q.get('broken') or {}).values()):
        return False
    env = (q.get('env') or {}) if q.get('argv', [''])[0] in ('hwp5odt', 'hwp5txt', 'hwp5html') else {}
    ole = 'olefile' not in l or 'gi' not in l or q.get('alias')
    xslt = 'lxml' not in l or 'xsltproc' not in l or 'PYHWP_XSLTPROC' in env
    cipher = 'cryptography' not in l or 'openssl' not in l
    return bool(ole and xslt and cipher)


def describe(q):
    return {k: q[k] for k in ('block', 'noexe', 'broken', 'env', 'alias', 'proc') if q.get(k)}


# -- commands ------------------------------------------------------------------

def judge_cli(eng, req, rep):
    if rep['hang']:
        return [('hang', '%r never ends with %s' % (req['argv'], describe(req)))]
    refr = eng.ref(req['plain'])
    if refr['hang']:
        return []
    what = '%r with %s' % (req['argv'], describe(req))
    if rep['exit'] == 0:
        if refr['exit'] != 0:
            if lost(req) & {'lxml', 'xmllint'} or req.get('proc'):
                return []           # not validated
            return [('no-error', '%s succeeds; with all components it fails: %s' % (what, refr['stderr'][-200:]))]
        a, b = rep['post'] or {}, refr['post'] or {}
        d = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        if d:
            return [('differs', '%s succeeds with another result in %s' % (what, d[:4]))]
    elif refr['exit'] == 0 and not req.get('proc') and providers(req):
        return [('not-skipped', '%s fails although another component is present: %s' % (what, rep['stderr'][-300:]))]
    return []


# -- library -------------------------------------------------------------------

def plat(root, op):
    """what the selected component itself does"""
    import random
    from hwp5 import plat as P
    from hwp5.importhelper import pkg_resources_filename
    k = op[1]
    rng = random.Random(op[2])
    if k == 'aes':
        f = P.get_aes128ecb_decrypt()
        return [f(rng.randbytes(16), rng.randbytes(n)) for n in (0, 16, 16 * rng.randrange(1, 600), 16 * rng.randrange(1, 40))]
    if k == 'aes-partial':
        return [P.get_aes128ecb_decrypt()(rng.randbytes(16), rng.randbytes(16 * rng.randrange(4) + rng.randrange(1, 16)))]
    if k in ('xslt', 'xslt-compile'):
        x, o = root + '/cwd/x.xml', root + '/cwd/y.xml'
        write_xml(root, x, op)
        s = pkg_resources_filename('hwp5', rng.choice(['xsl/plaintext.xsl', 'xsl/hwp5css.xsl', 'xsl/hwp5html.xsl', 'xsl/odt/styles.xsl', 'xsl/odt/content.xsl']))
        if k == 'xslt':
            P.get_xslt()(s, x, o)
        else:
            with io.open(o, 'wb') as f:
                P.get_xslt_compile()(s)(x, f)
        with io.open(o, 'rb') as f:
            return ['xslt', norm_file('', f.read())]
    if k == 'relaxng':
        x = root + '/cwd/x.xml'
        ok = rng.random() < .5
        with io.open(x, 'w') as f:
            f.write(u'<office:document-styles xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" office:version="1.2">%s</office:document-styles>'
                    % (u'' if ok else u'<office:nonsense/>'))
        return ['relaxng', bool(P.get_relaxng()(pkg_resources_filename('hwp5', 'odf-relaxng/OpenDocument-v1.2-os-schema.rng'), x))]
    if k == 'relaxng-stream':
        b = io.FileIO(root + '/cwd/v.xml', 'wb')
        ok = rng.random() < .5
        v = P.get_relaxng_compile()(pkg_resources_filename('hwp5', 'odf-relaxng/OpenDocument-v1.2-os-schema.rng'))
        with v.validating_output(b) as f:
            f.write(b'<office:document-styles xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" office:version="1.2">')
            f.write(b'' if ok else b'<office:nonsense/>')
            f.write(b'</office:document-styles>')
        b.close()
        with io.open(root + '/cwd/v.xml', 'rb') as f:
            return ['relaxng-stream', norm_file('', f.read())]
    if k == 'is':
        from hwp5.filestructure import is_hwp5file
        p = root + '/cwd/x'
        w = op[3]
        if w == 'doc':
            p = lib.doc_path(root)
        elif w != 'missing':
            with io.open(p, 'wb') as f:
                f.write({'empty': b'', 'text': b'hello' * 1000, 'zip': b'PK\x03\x04' + b'\0' * 2000, 'magic': b'\xd0\xcf\x11\xe0'}[w])
        return ['is', bool(is_hwp5file(p))]
    if k == 'list':
        return ['list'] + sorted(tree(P.get_olestorage_class()(lib.doc_path(root))))
    if k == 'seek':
        s = P.get_olestorage_class()(lib.doc_path(root))
        for x in op[3].split('/'):
            s = s[x]
        f = s.open()
        out = ['seek']
        n = len(f.read())
        out.append(n)
        for _ in range(30):
            w = rng.randrange(3)
            pos = rng.randrange(n + 1)
            if rng.random() < .5:
                f.seek(pos, 0) if w == 0 else f.seek(pos - f.tell(), 1) if w == 1 else f.seek(pos - n, 2)
                out.append(f.tell())
            else:
                out.append(hashlib.sha1(f.read(rng.choice([0, 1, 10, 512, 5000, -1]))).hexdigest())
        f.close()
        return out
    raise ValueError(k)


def tree(stg, base=''):
    for n in stg:
        c = stg[n]
        if hasattr(c, 'open'):
            yield base + n
        else:
            yield base + n + '/'
            for x in tree(c, base + n + '/'):
                yield x


def write_xml(root, path, op):
    from hwp5.xmlmodel import Hwp5File
    f = Hwp5File(lib.doc_path(root))
    with io.open(path, 'wb') as g:
        f.xmlevents(embedbin=False).dump(g)
    f.close()


def normal(op, r):
    if op[0] == 'convert':
        if op[1] in ('odt', 'dir'):
            return [(n, norm_file(n, b) if isinstance(b, bytes) else b) for n, b in r[0]]
        return ['x', norm_file('', b''.join(r))]
    if op[0] == 'items':
        return sorted(r, key=repr)      # the order of a listing is the component's own
    return r


def run(shim, root, req):
    log = lib.Log()
    got = []
    cache = {}
    from hwp5.xmlmodel import Hwp5File
    f = None
    for m in lost(req):
        lib.fault(('broken:' if m in (req.get('broken') or {}) else 'missing:') + m)
    for i, st in enumerate(req['steps']):
        op, want = st['op'], st.get('want')
        what = '%s (step %d) with %s' % (op, i, describe(req))
        if op[0] == 'open':         # the next document of the same process
            f = None
        try:
            if op[0] == 'plat':
                r, err = plat(root, op), None
            else:
                if f is None:
                    f = Hwp5File(lib.doc_path(root))
                r, err = (['open'], None) if op[0] == 'open' else readers.run_alone(f, op, root, cache)
        except Exception as e:
            r, err = [], e
        log.say(op, repr(err)[:60])
        if want is None:
            got.append(digest(normal(op, r)) if err is None else ['error', repr(err)[:200]])
            continue
        log.count('result' if err is None else 'error')
        # (a lost component or a failing tool may be reported for one step only)
        if err is None:
            if want[0] == 'error':
                if not (lost(req) & {'lxml', 'xmllint'}):
                    log.fail('no-error', '%s succeeds; with all components: %s' % (what, want[1]))
            elif digest(normal(op, r)) != want:
                log.fail('differs', '%s: another result than with all components' % what)
        elif want[0] != 'error' and not req.get('proc') and providers(req):
            if op[0] == 'plat' and op[1].startswith('relaxng') and lost(req) >= {'lxml', 'xmllint'} and 'PYHWP_XMLLINT' not in (req.get('env') or {}):
                continue
            log.fail('not-skipped', '%s: fails although another component is present: %r' % (what, err))
    return log.res(got=got)


def judge(eng, req, rep):
    if req['kind'] == 'cli':
        return [(c + ':' + req['wname'], m) for c, m in judge_cli(eng, req, rep)]
    return lib.judge(eng, req, rep)


def main(eng):
    # commands
    base = []
    for i in range(eng.n(7, 40)):
        rng = eng.rng('docs', i)
        spec = docs.swarm(rng, True)
        if i == 1:
            spec = {'base': 'viewtext.hwp', 'ops': [['dupsection', 2]]}
        if i == 2:
            spec = {'base': 'sample-5017.hwp', 'ops': [['dupsection', 11]]}
        if i in (1, 2):
            spec = spec if isinstance(spec, dict) else {'base': spec, 'ops': []}
            spec = dict(spec, ops=spec['ops'] + [['mkstg', rng.choice(['Empty', 'BinData/None'] + (['BodyText/None'] if i != 2 else []))]])
        for name, r in cliwork.workloads(rng, spec):
            if r.get('block') or r.get('alias'):
                continue
            r['wname'] = name
            r['post'] = ['c12', 'norm']
            base.append(r)
    eng.prefetch_refs(base)
    byn = cliwork.by_name(base)
    names = sorted(byn)
    heavy = [n for n in names if FILTERED.search(n) or n in ('txt-stdout', 'txt-file')]
    # every command on the document with the most sections, without each component
    many = [r for r in base if ['dupsection', 11] in (r['docs']['d.hwp'].get('ops') or [] if isinstance(r['docs']['d.hwp'], dict) else [])]
    reqs = [dict(r, plain=r, block=[m]) for r in many for m in ('olefile', 'lxml')]
    for i in range(eng.n(1300, 16000)):
        rng = eng.rng('var', i)
        r = rng.choice(byn[names[i % len(names)] if i % 2 else heavy[i // 2 % len(heavy)]])
        c = config(rng)
        e = dict(r.get('env') or {}, **c.pop('env', {}))
        q = dict(r, plain=r, **c)
        if e:
            q['env'] = e
        if rng.random() < .25 and not q.get('tty'):     # (a pager may end when it likes)
            f = cliwork.proc_fault(rng, ['xmllint', 'xsltproc', 'openssl', 'xmllint'])
            q['proc'] = [f]
        reqs.append(q)
    pairs = list(zip(reqs, eng.run(reqs)))
    for q, rep in pairs:
        for m in lost(q):
            eng.fired[('broken:' if m in (q.get('broken') or {}) else 'missing:') + m] += 1
        eng.probes['command: ' + ('error' if rep['exit'] else 'result')] += 1
        for c, m in judge(eng, q, rep):
            eng.violation(c, m, q, judge)
    cliwork.sample(eng, pairs)
    # the library
    base = []
    for i in range(eng.n(150, 1500)):
        rng = eng.rng('lib', i)
        spec = docs.swarm(rng, True)
        if i % 4 == 1:
            spec = {'base': 'viewtext.hwp', 'ops': []}
        if isinstance(spec, str):
            spec = {'base': spec, 'ops': []}
        if rng.random() < .25:
            spec = dict(spec, ops=spec['ops'] + [['mkstg', rng.choice(['Empty', 'BinData/None', 'Scripts/None', 'BodyText/None'])]])
        t = docs.tree(spec)
        leaves = [p for p in readers.ref.walk(t)]
        steps = []
        for _ in range(rng.choice([2, 4, 7])):
            m = rng.random()
            if m < .35:
                k = rng.choice(['aes', 'aes', 'aes-partial', 'xslt', 'xslt-compile', 'relaxng', 'relaxng-stream', 'is', 'list', 'list', 'seek', 'seek'])
                op = ['plat', k, rng.randrange(1 << 30)]
                if k == 'is':
                    op.append(rng.choice(['doc', 'empty', 'text', 'zip', 'magic', 'missing']))
                if k == 'seek':
                    op.append(rng.choice(leaves))
            elif m < .4:
                op = ['open']
            else:
                op = readers.catalog(rng, t, conv=rng.random() < .5)
            steps.append(op)
        base.append({'kind': 'lib', 'module': 'c12', 'fn': 'run', 'docs': {'d.hwp': spec}, 'steps': [{'op': o} for o in steps]})
    first = lib.sweep(eng, base)
    reqs = []
    for i, (q, rep) in enumerate(first):
        rng = eng.rng('cfg', i)
        res = rep.get('res')
        if not res:
            continue
        q = dict(q, steps=[dict(st, want=w) for st, w in zip(q['steps'], res['got'])])
        for _ in range(eng.n(6, 20)):
            c = config(rng)
            c.pop('env', None)
            r = dict(q, **c)
            if rng.random() < .25:
                r['proc'] = [{'i': rng.choice([0, 0, 1, 2, 3]), 'mode': rng.choice(['enoent', 'eagain', 'exit', 'die']),
                              'after': rng.choice([0, 10, 5000]), 'out': rng.choice([0, 100, 5000])}]
            reqs.append(r)
    pairs = lib.sweep(eng, reqs)
    lib.sample(eng, pairs)
    eng.finish(rule='distinct digests of (configuration, operation sequence or command, I/O event log)',
               components=cliwork.REAL + ', libgsf, cryptography', stubs=cliwork.STUB +
               '; the presence of components (import hooks, missing and renamed executables, failing probes)')
