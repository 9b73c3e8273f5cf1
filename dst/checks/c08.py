"""C08: output depends only on the document and the options."""
import hashlib
import io
import os
import re
import zipfile

from .. import cliwork
from .. import docs
from .. import lib
from .. import readers
from .c09 import digest

# commands that print a listing in the character set of the locale
LISTING = re.compile(r'ls|version|models|find|records(-simple|-range|-group|-stdin)?$')
POOLS = [{'PYTHONHASHSEED': '1'}, {'PYTHONHASHSEED': '2', 'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
         {'PYTHONHASHSEED': '77', 'DST_FRESH': '1', 'TZ': 'KST-9'}, {'PYTHONHASHSEED': '4000000', 'PYTHONOPTIMIZE': '1'}]


def package(b):
    """everything of a package except modification times"""
    try:
        with zipfile.ZipFile(io.BytesIO(b)) as z:
            return repr([(i.filename, i.compress_type, i.create_system, i.external_attr, i.comment, i.file_size, hashlib.sha1(z.read(i)).hexdigest())
                         for i in z.infolist()]).encode()
    except Exception:
        return b


def norm(root, req):
    out = {}
    with open(root + '/io/stdout', 'rb') as f:
        b = f.read()
    out['stdout'] = hashlib.sha1(b).hexdigest()
    if req.get('enc'):
        try:
            out['listing'] = hashlib.sha1(b.decode(req['enc']).encode()).hexdigest()
        except UnicodeError:
            out['listing'] = None
    for d, ds, fs in os.walk(root + '/cwd'):
        ds.sort()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = ''
        for x in sorted(fs):
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                b = f.read()
            if b[:2] == b'PK':
                b = package(b)
            out[os.path.relpath(p, root)] = hashlib.sha1(b).hexdigest()
    return out


def describe(q):
    return {k: q[k] for k in ('clock', 'step', 'env', 'rseed', 'dirseed', 'cwdname', 'enc', 'pool') if k in q}


def judge(eng, req, rep):
    if req['kind'] == 'lib':
        return lib.judge(eng, req, rep)
    if rep['hang']:
        return [('hang:' + req['wname'], '%r never ends with %s' % (req['argv'], describe(req)))]
    refr = eng.ref(req['plain'])
    if refr['hang']:
        return []
    what = '%r with %s' % (req['argv'], describe(req))
    a, b = dict(rep['post'] or {}), dict(refr['post'] or {})
    li = a.pop('listing', None)
    if req.get('enc') and LISTING.match(req['wname']):
        if rep['exit'] != 0 and 'UnicodeEncodeError' in rep['stderr']:
            return []
        if li == b['stdout']:
            a['stdout'] = b['stdout']
    out = []
    if rep['exit'] != refr['exit']:
        out.append(('exit:' + req['wname'], 'exit status %s instead of %s: %s: %s' % (rep['exit'], refr['exit'], what, rep['stderr'][-300:])))
    else:
        d = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        if d:
            out.append(('output:' + req['wname'], 'other output in %s: %s' % (d[:4], what)))
    return out


def surroundings(rng, q):
    """another place and time to run the same command"""
    while True:
        if rng.random() < .6:
            q['clock'] = float(rng.choice([315705600, 946684799, 1e9, 1709164800, 2147483646, 2147483649, rng.randrange(315705600, 4000000000)]))
        if rng.random() < .4:
            q['step'] = rng.choice([0, 1, 10**6, 10**9, 86400 * 10**9])
        env = {}
        if rng.random() < .6:
            env['TZ'] = rng.choice(['KST-9', 'EST5EDT', 'XYZ+11:30', 'AAA-14', '<+0545>-5:45', 'Nowhere/Land', ''])
        if rng.random() < .5:
            env['LANG'] = rng.choice(['C', 'POSIX', 'ko_KR.UTF-8', 'ko_KR.eucKR', 'tr_TR', 'nonsense'])
        if rng.random() < .3:
            env[rng.choice(['LC_ALL', 'LC_CTYPE', 'LC_TIME', 'LC_NUMERIC'])] = rng.choice(['C', 'ko_KR.UTF-8', 'de_DE', 'C.UTF-8'])
        if rng.random() < .2:
            env['LANGUAGE'] = 'ko:en'
        if rng.random() < .3:
            env[rng.choice(['HOME', 'USER', 'LOGNAME', 'COLUMNS', 'LINES', 'TERM', 'XDG_CACHE_HOME', 'PAGER', 'SOURCE_DATE_EPOCH', 'PYTHONIOENCODING',
                            'XML_CATALOG_FILES', 'NO_COLOR', 'TMP', 'TEMP'])] = rng.choice(['1', '/nonexistent', 'x y', 'utf-8'])
        if rng.random() < .5:
            q['rseed'] = rng.randrange(1, 1 << 30)
        if rng.random() < .4:
            q['dirseed'] = rng.randrange(2, 1000)
        if rng.random() < .3:
            q['cwdname'] = rng.choice(['b', 'a b', 'x.hwp', '%s', 'c&d', u'\ud55c\uae00'])
        if rng.random() < .3:
            q['enc'] = rng.choice(['euc-kr', 'latin-1', 'ascii', 'cp949', 'utf-16'])
        if env:
            q['env'] = dict(q.get('env') or {}, **env)
        if describe(q):
            return q


# -- history of the process ----------------------------------------------------

def run(shim, root, req):
    from hwp5.xmlmodel import Hwp5File
    log = lib.Log()
    got = []
    cache = {}
    opened = {}
    for st in req['steps']:
        op, want = st['op'], st.get('want')
        d = st['doc']
        try:
            if st.get('fresh') and d in opened:
                opened.pop(d).close()
            if d not in opened:
                opened[d] = Hwp5File(lib.doc_path(root, d))
            out, err = readers.run_alone(opened[d], op, root, cache if st.get('keep') else None)
        except Exception as e:
            out, err = [], e
        r = digest(out, op) if err is None else ['error', repr(err)[:200].replace(root, '')]
        log.say(d, op, r)
        got.append(r)
        if want is not None:
            log.count('compared')
            if r != want:
                log.fail('history', '%s of %s after %s: %s instead of %s' % (
                    op, d, [(s['doc'], s['op']) for s in req['steps'][:req['steps'].index(st)]], r, want))
    return log.res(got=got)


def main(eng):
    base = []
    for i in range(eng.n(6, 40)):
        rng = eng.rng('docs', i)
        spec = docs.swarm(rng, True)
        if i == 1:
            spec = {'base': 'viewtext.hwp', 'ops': [['dupsection', 2]]}
        for name, r in cliwork.workloads(rng, spec):
            r['wname'] = name
            r['post'] = ['c08', 'norm']
            base.append(r)
    eng.prefetch_refs(base)
    byn = cliwork.by_name(base)
    names = sorted(byn)
    reqs = []
    for i in range(eng.n(1300, 16000)):
        rng = eng.rng('var', i)
        r = rng.choice(byn[names[i % len(names)]])
        q = surroundings(rng, dict(r, plain=r))
        k = rng.randrange(len(POOLS) + 1)
        if k < len(POOLS):
            q['pool'] = POOLS[k]
        if k == 1 and 'cwdname' in q and not q['cwdname'].isascii():
            q['cwdname'] = 'b'
        reqs.append(q)
    pairs = list(zip(reqs, eng.run(reqs)))
    for q, rep in pairs:
        for k in describe(q):
            eng.fired['varied: ' + k] += 1
        for c, m in judge(eng, q, rep):
            eng.violation(c, m, q, judge)
    cliwork.sample(eng, pairs)
    # what the process did before
    pool = []
    for i in range(eng.n(40, 400)):
        rng = eng.rng('hist-docs', i)
        spec = docs.swarm(rng, True)
        if i % 5 == 1:
            spec = {'base': 'viewtext.hwp', 'ops': []}
        if isinstance(spec, str):
            spec = {'base': spec, 'ops': []}
        t = docs.tree(spec)
        if rng.random() < .3:
            x = rng.choice(['FileHeader', 'DocInfo', 'DocInfo'])
            spec = dict(spec, ops=spec['ops'] + [['rawflip', x, [[rng.choice([32, 33, 34]), rng.randrange(1, 8)]]] if x == 'FileHeader'
                                                 else ['flip', x, [[rng.randrange(3000), rng.randrange(1, 256)] for _ in range(4)]]])
        pool.append((spec, [readers.catalog(rng, t, conv=rng.random() < .5) for _ in range(eng.n(5, 8))]))
    alone = [{'kind': 'lib', 'module': 'c08', 'fn': 'run', 'docs': {'%d.hwp' % i: spec}, 'steps': [{'doc': '%d.hwp' % i, 'op': op}]}
             for i, (spec, ops) in enumerate(pool) for op in ops]
    want = {}
    for q, rep in lib.sweep(eng, alone):
        st = q['steps'][0]
        if rep.get('res'):
            want[st['doc'], repr(st['op'])] = rep['res']['got'][0]
    reqs = []
    for i in range(eng.n(700, 8000)):
        rng = eng.rng('hist', i)
        ds = [rng.randrange(len(pool)) for _ in range(rng.choice([1, 2, 3, 5]))]
        steps = []
        for _ in range(rng.choice([2, 4, 8])):
            d = rng.choice(ds)
            op = rng.choice(pool[d][1])
            k = '%d.hwp' % d
            st = {'doc': k, 'op': op, 'want': want.get((k, repr(op)))}
            if rng.random() < .3:
                st['fresh'] = 1
            if rng.random() < .5:
                st['keep'] = 1
            steps.append(st)
        q = {'kind': 'lib', 'module': 'c08', 'fn': 'run', 'docs': {'%d.hwp' % d: pool[d][0] for d in set(ds)}, 'steps': steps,
             'clock': float(rng.randrange(315705600, 4000000000)), 'rseed': rng.randrange(1, 1 << 30)}
        k = rng.choice([len(POOLS)] * 3 + list(range(len(POOLS))))
        if k < len(POOLS):
            q['pool'] = POOLS[k]
        reqs.append(q)
    pairs = lib.sweep(eng, reqs)
    lib.sample(eng, pairs)
    eng.finish(rule='distinct digests of (surroundings, I/O event log, results)',
               components=cliwork.REAL, stubs=cliwork.STUB)
