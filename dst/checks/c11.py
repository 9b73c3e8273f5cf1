"""C11: damage in one stream does not change what is read from the others."""
from .. import docs
from .. import lib
from .. import readers
from .. import ref
from ..lib import judge  # noqa

SUMMARY = '\x05HwpSummaryInformation'


def deps(op, tree):
    """the streams an operation derives its result from (prefixes)"""
    body = 'ViewText' if docs.flags(tree) & 4 else 'BodyText'
    k = op[0]
    if k == 'stream':
        return [op[1]]
    if k == 'virtual':
        p = op[1].rsplit('.', 1)[0]
        return [p]
    if k in ('records', 'groups', 'lazygroups', 'models', 'one', 'events', 'json', 'tree', 'binevents'):
        return [op[1].rstrip('!')]
    if k == 'dist':
        return ['ViewText/' + op[1]]
    if k in ('fonts', 'charshape'):
        return ['DocInfo']
    if k == 'info':
        return ['PrvText']
    if k == 'summary':
        return [SUMMARY]
    if k == 'getter':
        return [SUMMARY] if op[1] in ('summarytext', 'summaryset', 'title') else ['PrvText'] if op[1].startswith('preview') else []
    if k == 'sections':
        return [body]
    if k == 'names':
        return []
    if k == 'unpack':
        return ['']
    if k in ('xml', 'xmldump'):
        if k == 'xml' and op[1]:
            return [{'summary': SUMMARY, 'text': body}.get(op[1], op[1].rstrip('!'))]
        r = ['DocInfo', body, SUMMARY]
        return r + ['BinData'] if op[-1] else r
    if k == 'convert':
        r = ['DocInfo', body, SUMMARY]
        return r + ['BinData'] if op[1] in ('odt', 'dir', 'single') else r
    return ['']


def touched(op, tree, x):
    return any(x == d or d == '' or x.startswith(d + '/') or d.startswith(x + '/') for d in deps(op, tree))


def run(shim, root, req):
    from hwp5.xmlmodel import Hwp5File
    log = lib.Log()
    good = docs.tree(req['good'])
    bad = docs.tree(req['docs']['d.hwp'])
    x = req['x']
    splits = (0,)
    for m in req.get('damage', ()):
        lib.fault('stored-damage:' + m)

    def opendoc(intact):
        if intact:
            return Hwp5File(lib.SimStorage(good, lib.World(splits)))
        if req.get('sim'):
            return Hwp5File(lib.SimStorage(bad, lib.World(splits, {x: [req['fault']]} if req.get('fault') else None,
                                                          req.get('dirseed', 0))))
        return Hwp5File(lib.doc_path(root))
    f = opendoc(False)
    alone = {}
    for op in req['steps']:
        what = '%s with %s %s (after %s)' % (op, x, req.get('damage') or req.get('fault'), req['steps'])
        mine = touched(op, good, x)
        got, err = readers.run_alone(f, op, root)
        log.say(op, len(got), type(err).__name__)
        if mine:
            log.count('derived, error' if err else 'derived, result')
            continue
        k = repr(op)
        if k not in alone:
            g = opendoc(True)
            alone[k] = readers.run_alone(g, op, root)
        want, werr = alone[k]
        log.count('independent')
        if op[0] == 'names' and err is None:
            gone = set(want[0]) - set(got[0])
            # (what is listed for a storage goes with its last stream)
            own = [x] + [a for a in ['/'.join(x.split('/')[:i]) for i in range(1, x.count('/') + 1)]
                         if not any(n.startswith(a + '/') for n in got[0])]
            if any(not any(n == a or n.startswith(a + '/') or n.startswith(a + '.') for a in own) for n in gone) or set(got[0]) - set(want[0]):
                log.fail('listing', '%s: missing %s, new %s' % (what, sorted(gone), sorted(set(got[0]) - set(want[0]))))
            elif gone and not req.get('deleted'):
                log.fail('listing', '%s: missing %s' % (what, sorted(gone)))
        elif repr(err) != repr(werr):
            log.fail('spread', '%s: %r instead of %r' % (what, err, werr))
        elif not readers.same(got, want):
            log.fail('spread', '%s: %s' % (what, readers.describe(got, want)))
    f.close()
    return log.res()


def main(eng):
    reqs = []
    for i in range(eng.n(1800, 30000)):
        rng = eng.rng('run', i)
        spec = docs.swarm(rng, True)
        if i % 8 == 1:
            spec = {'base': 'viewtext.hwp', 'ops': []}
        if isinstance(spec, str):
            spec = {'base': spec, 'ops': []}
        if rng.random() < .5 and not docs.flags(docs.tree(spec)) & 4:
            spec = dict(spec, ops=spec['ops'] + [['dupsection', 3]])
        t = docs.tree(spec)
        body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
        leaves = [p for p in ref.walk(t) if p != 'FileHeader']
        x = rng.choice(rng.choice([leaves, ['DocInfo'], [p for p in leaves if p.startswith(body)], [p for p in leaves if p.startswith('BinData')] or leaves,
                                   ['PrvText'] if 'PrvText' in t else leaves, [SUMMARY] if SUMMARY in t else leaves]))
        q = {'kind': 'lib', 'module': 'c11', 'fn': 'run', 'x': x, 'good': spec, 'docs': {'d.hwp': spec}}
        n = len(docs.getp(t, x))
        m = rng.choice(['fault', 'fault', 'rawflip', 'rawcut', 'junk', 'empty', 'delete', 'flip', 'cut'])
        if m == 'fault':
            q['sim'] = 1
            q['dirseed'] = rng.randrange(100)
            q['fault'] = {'kind': 'open', 'errno': 5} if rng.random() < .3 else {'kind': 'read', 'at': rng.choice([0, 1, 4, 100, rng.randrange(n + 1)])}
        else:
            op = {'rawflip': ['rawflip', x, [[rng.randrange(n + 1), rng.randrange(1, 256)] for _ in range(rng.choice([1, 4, 64]))]],
                  'rawcut': ['rawcut', x, rng.randrange(n + 1)], 'junk': ['addraw', x, rng.choice([1, 10, n, 5000]), rng.randrange(1000), 'rand'],
                  'empty': ['addraw', x, 0, 0, 'zero'], 'delete': ['delete', x],
                  'flip': ['flip', x, [[rng.randrange(100000), rng.randrange(1, 256)] for _ in range(rng.choice([1, 4, 64]))]],
                  'cut': ['cut', x, rng.randrange(n + 1)]}[m]
            if m == 'delete':
                q['deleted'] = 1
            q['damage'] = [m]
            q['docs'] = {'d.hwp': dict(spec, ops=spec['ops'] + [op])}
            if rng.random() < .4:
                q['sim'] = 1
                q['dirseed'] = rng.randrange(100)
            elif rng.random() < .25:
                q['block'] = ['olefile']
        steps = []
        for _ in range(rng.choice([3, 6, 10])):
            for _ in range(6):
                op = readers.catalog(rng, t, conv=rng.random() < .2)
                hit = touched(op, t, x)
                if op[0] not in ('unpack',) and hit == (rng.random() < .35):
                    break
            steps.append(op)
        # what is independent is also read after the damage has been met
        steps.append(rng.choice([['names'], ['stream', rng.choice([p for p in ref.walk(t) if p != x]), [4096]]]))
        q['steps'] = steps
        reqs.append(q)
    pairs = lib.sweep(eng, reqs)
    lib.sample(eng, pairs)
    eng.finish(rule='distinct digests of (damage, order of access, outcomes, I/O event log)',
               components='all of hwp5 above the file, olefile and libgsf backends',
               stubs='process scheduling, clock, randomness; in half of the runs the storage below the document')
