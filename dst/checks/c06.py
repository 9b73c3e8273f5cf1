"""C06: streams and iterations over one document do not disturb each other."""
from .. import docs
from .. import lib
from .. import readers
from ..lib import judge  # noqa


def opener(shim, root, req, world=None):
    def mk():
        from hwp5.xmlmodel import Hwp5File
        if req.get('sim'):
            t = docs.tree(req['docs']['d.hwp'])
            return Hwp5File(lib.SimStorage(t, lib.World(tuple(req.get('splits') or (0,)), None, req.get('dirseed', 0))))
        return Hwp5File(lib.doc_path(root))
    return mk


def run(shim, root, req):
    """steps: ['new', slot, op] | ['go', slot, k] | ['drop', slot] | ['end', slot]"""
    log = lib.Log()
    mk = opener(shim, root, req)
    alone = {}

    def expect(op):
        k = repr(op)
        if k not in alone:
            f = mk()
            try:
                alone[k] = readers.run_alone(f, op, root)
                if alone[k][1] is not None:
                    log.count('alone:%s:%s' % (op[0] + ':' + str(op[1:])[:40], type(alone[k][1]).__name__))
            finally:
                f.close()
        return alone[k]
    for st in req['steps']:
        if st[0] == 'new':
            expect(st[2])
    doc = mk()
    live = {}
    cache = {}

    def finish(s, done):
        op, it, got, err = live.pop(s)
        want, werr = expect(op)
        what = 'reader %s (schedule %s)' % (op, req['steps'])
        log.say(op, len(got), done)
        log.count('finished' if done else 'abandoned')
        if err is None and not done:
            if not readers.part(got, want):
                log.fail('disturbed', '%s: %s' % (what, readers.describe(got, want)))
        elif repr(err) != repr(werr):
            log.fail('disturbed', '%s: ends with %r instead of %r' % (what, err, werr))
        elif not readers.same(got, want):
            log.fail('disturbed', '%s: %s' % (what, readers.describe(got, want)))

    def go(s, k):
        if s not in live:
            return
        r = live[s]
        try:
            for _ in range(k):
                r[2].append(next(r[1]))
        except StopIteration:
            finish(s, True)
        except Exception as e:
            r[3] = e
            finish(s, True)
    for st in req['steps']:
        log.say(st)
        if st[0] == 'new':
            if st[1] in live:
                finish(st[1], False)
            live[st[1]] = [st[2], readers.make(doc, st[2], root, cache), [], None]
        elif st[0] == 'go':
            go(st[1], st[2])
        elif st[0] == 'end':
            go(st[1], 10 ** 7)
        elif st[0] == 'drop' and st[1] in live:
            it = live[st[1]][1]
            finish(st[1], False)
            it.close()
    for s in sorted(live):
        go(s, 10 ** 7)
    doc.close()
    return log.res()


def steps(rng, tree, n):
    out = []
    slots = list(range(rng.choice([2, 2, 3, 4, 6])))
    pool = [readers.catalog(rng, tree, conv=rng.random() < .3) for _ in range(rng.choice([1, 2, 4, 8]))]
    if rng.random() < .15:      # the same parts of the document, read for different purposes
        pool = rng.sample([['xml', '', True], ['xml', '', False], ['xmldump', True], ['xmldump', False], ['models', 'DocInfo'],
                           ['xml', 'DocInfo', False], ['convert', 'single'], ['convert', 'odt'], ['convert', 'css'], ['events', 'DocInfo!'],
                           ['xml', 'DocInfo!', False], ['json', 'DocInfo!', 'models', 'open']], rng.choice([2, 3, 4]))
        out += [x for o in rng.sample(pool, rng.choice([1, 2])) for x in (['new', 0, o], ['end', 0])]
    for s in slots:
        out.append(['new', s, rng.choice(pool)])
    for _ in range(n):
        s = rng.choice(slots)
        m = rng.random()
        if m < .7:
            out.append(['go', s, rng.choice([1, 1, 2, 3, 10, 50, 400])])
        elif m < .85:
            out.append(['new', s, rng.choice(pool)])
        elif m < .93:
            out.append(['drop', s])
        else:
            out.append(['end', s])
    return out


def shrink(req):
    return lib.shrink(req)


def main(eng):
    reqs = []
    for i in range(eng.n(1500, 20000)):
        rng = eng.rng('run', i)
        spec = docs.swarm(rng, True)
        if i % 7 == 1:
            spec = {'base': 'viewtext.hwp', 'ops': []}
        tree = docs.tree(spec)
        q = {'kind': 'lib', 'module': 'c06', 'fn': 'run', 'docs': {'d.hwp': spec},
             'steps': steps(rng, tree, rng.choice([5, 15, 40, 80]))}
        if i % 3 == 1:
            q['sim'] = 1
            q['splits'] = lib.splits(rng) if rng.random() < .5 else [0]
            q['dirseed'] = rng.randrange(100)
        elif i % 5 == 2:
            q['block'] = ['olefile']
        reqs.append(q)
    pairs = lib.sweep(eng, reqs)
    lib.sample(eng, pairs)
    eng.finish(rule='distinct digests of (interleaving schedule, readers, I/O event log)',
               components='all of hwp5 above the file, olefile and libgsf backends, libxslt',
               stubs='process scheduling, clock, randomness; in a third of the runs the storage below the document')
