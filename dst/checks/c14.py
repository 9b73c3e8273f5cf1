"""C14: a long-lived process does not accumulate files, handles or memory."""
import array
import ctypes
import gc
import os
import random
import sys
from collections import deque

from .. import docs
from .. import lib
from .. import readers
from ..lib import judge  # noqa

WARM, PASSES = 3, 6
# growth per pass that is called a leak, if it happens in every pass; objects tracked by
# the collector are counted exactly, other memory has a little noise of its own
OBJECTS, BLOCKS, MALLOC = 1, 20, 3000


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks',
                                               'fordblks', 'keepcost')]


def fds():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue            # the listing's own
        out.append(t)
    return sorted(out)


def census():
    """objects the collector knows, and what the containers among them hold
    (strings, numbers and bytes are not tracked themselves)"""
    o = gc.get_objects()
    return len(o), sum(len(x) for x in o if type(x) in KINDS and not lxml_log(x))


def lxml_log(x):
    """the error log that lxml keeps, which rotates"""
    return type(x) is list and len(x) > 0 and type(x[0]).__name__ == '_LogEntry'


KINDS = {list, dict, set, deque}


def variant(doc, p):
    """the document of pass p: other content of the same shape"""
    if doc.get('raw') is not None or doc.get('missing'):
        return doc
    if isinstance(doc, str):
        doc = {'base': doc, 'ops': []}
    r = random.Random('%d' % p)
    return {'base': doc['base'], 'ops': [vary(x, p) if x[0] == 'vary' else [x[0], 'BIN%04X%s' % (r.randrange(0x1000, 0x10000), os.path.splitext(x[1])[1]), x[2], r.randrange(1 << 30), x[4]]
                                         if x[0] == 'addbin' else x[:3] + [x[3] + p % 7] if x[0] == 'growtext' else x for x in doc['ops']]}


def vary(op, p):
    """values that no document had before: ['vary', path, [[record, what, offset]...]]"""
    if op[1] == 'FileHeader':
        return ['rawflip', 'FileHeader', [[32, p + 1 & 255], [33, p // 256 & 255]]]
    out = []
    for k, (i, what, off) in enumerate(op[2]):
        b = 64 + (p * 37 + k * 11) % 190
        if what == 'tag':
            out.append([i, 'tag', 100 + (p * 83 + k * 7) % 900])
        elif what == 'fill':
            out.append([i, 'fill', off, b, 0])
        else:
            out.append([i, 'poke', off, bytes((b + j * 3) % 256 for j in range({'poke1': 1, 'poke4': 4}.get(what, 10))).hex()])
    return ['rec', op[1], out]


class Session:
    """one document from opening to closing; whatever fails is caught and forgotten"""

    def __init__(self, shim, root, log, st, cache):
        self.shim, self.root, self.log, self.st, self.cache = shim, root, log, st, cache
        self.failed = 0

    def attempt(self, fn, *a):
        try:
            return fn(*a)
        except KeyboardInterrupt:
            self.failed += 1
        except Exception:
            self.failed += 1

    def read(self, f, op, how):
        it = readers.make(f, op, self.root, self.cache)
        n = 0
        for x in it:
            n += 1
            if how is not None and n > how[0]:
                break
        if how is not None and how[1] == 'close':
            it.close()

    def open(self, path):
        from hwp5.xmlmodel import Hwp5File
        return Hwp5File(path)

    def run(self, path):
        f = self.attempt(self.open, path)
        if f is None:
            return False
        for op, how in self.st['ops']:
            self.attempt(self.read, f, op, how)
        if self.st['end'] == 'close':
            self.shim.activate(0)       # closing is not made to fail
            f.close()
            return True
        return False


def run(shim, root, req):
    from .. import simproc
    import tempfile  # noqa
    import logging
    import threading
    log = lib.Log()
    logging.getLogger('hwp5').addHandler(logging.NullHandler())
    logging.lastResort = None
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    libc.malloc_trim.argtypes = [ctypes.c_size_t]
    gsf = 'olefile' in (req.get('block') or ())
    passes = WARM + PASSES
    # all documents beforehand
    for p in range(passes):
        for k, st in enumerate(req['steps']):
            d = variant(st['doc'], p)
            if d.get('missing'):
                continue
            with open(root + '/in/p%d_%d.hwp' % (p, k), 'wb') as f:
                f.write(bytes.fromhex(d['raw']) if d.get('raw') is not None else docs.build(d))
    docs.forget()
    hist = [array.array('q', [0] * passes) for _ in range(4)]
    base = None
    cache = {} if req.get('keep') else None
    fired = 0
    for p in range(passes):
        for k, st in enumerate(req['steps']):
            path = root + '/in/p%d_%d.hwp' % (p, k)
            c = shim.ctl
            c.nops = c.nlog = c.nfaults = 0
            for i, f in enumerate(st.get('faults') or ()):
                c.faults[i].op, c.faults[i].kind, c.faults[i].arg, c.faults[i].fired = f['op'], shim_kinds[f['kind']], f['arg'], 0
                c.nfaults = i + 1
            simproc.install(shim, [dict(x) for x in st.get('proc') or ()], req.get('noexe') or ())
            s = Session(shim, root, log, st, cache)
            shim.activate(1)
            try:
                closed = s.run(path)
                shim.activate(0)
            except KeyboardInterrupt:           # delivered late
                closed = False
            shim.activate(0)
            hit = shim.fired()
            for f in hit:
                lib.fault(f['kind'])
                fired += 1
            shim.disarm()
            what = 'session %s of document %d, pass %d, faults %s' % (st['ops'], k, p, hit)
            spared = any(x[3] != '-' and x[1] in ('unlink', 'rmdir') for x in shim.log())
            log.say(p, k, s.failed, len(hit))
            log.count('failed steps', s.failed)
            log.count('sessions')
            if closed and gsf:
                gc.collect()            # it closes with its last stream
            if closed and any(path in x for x in fds()):
                log.fail('open-after-close', '%s: a descriptor still refers to the closed document' % what)
            readers._held.clear()       # (our own)
            gc.collect()
            left = simproc.unreaped()
            if left:
                log.fail('children', '%s: not waited for: %s' % (what, left))
            simproc.install(shim)       # (the stand-in's own records)
            left = os.listdir(root + '/tmp')
            if left and not spared:
                log.fail('temporary', '%s: left behind %s' % (what, left[:3]))
            for x in left:
                docs_rm(root + '/tmp/' + x)
            if any(path in x for x in fds()):
                log.fail('fd', '%s: a descriptor still refers to the document, which is gone' % what)
            del s, hit, left
            for x in os.listdir(root + '/cwd'):
                docs_rm(root + '/cwd/' + x)
            try:
                os.unlink(path)
            except OSError:
                pass
        if log.bad:
            break
        gc.collect()
        if p == 0:
            base = (fds(), threading.active_count(), len(logging.getLogger('hwp5').handlers), len(sys.path), len(sys.meta_path), os.getcwd())
        else:
            now = (fds(), threading.active_count(), len(logging.getLogger('hwp5').handlers), len(sys.path), len(sys.meta_path), os.getcwd())
            if now != base:
                log.fail('fd', 'after pass %d of %s: descriptors, threads, handlers, paths %s instead of %s' % (p, req['steps'], now, base))
            del now
        simproc.install(shim)
        gc.collect()
        libc.malloc_trim(0)
        m = libc.mallinfo2()
        hist[0][p] = sys.getallocatedblocks()
        hist[1][p] = m.uordblks + m.hblkhd
        del m
        hist[2][p], hist[3][p] = census()
    if not log.bad:
        # (each failing import of a missing olefile interns a few names for good)
        for h, lim, what in ((hist[2], OBJECTS, 'objects'), (hist[3], OBJECTS, 'entries of lists, dictionaries and sets'), (hist[0], BLOCKS * max(1, len(req['steps'])) if not gsf else 1 << 30, 'memory blocks'),
                             (hist[1], MALLOC, 'bytes of allocated memory')):
            d = [b - a for a, b in zip(h[WARM - 1:], h[WARM:])]
            if min(d) >= lim:
                log.fail('memory', '%d to %d more %s are in use after each repetition of %s' % (min(d), max(d), what, req['steps']))
    return log.res(hist=[list(h) for h in hist], fired=fired)


from ..shimctl import FK as shim_kinds  # noqa


def docs_rm(p):
    import shutil
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    else:
        os.unlink(p)


def document(rng):
    r = rng.random()
    if r < .06:
        return {'raw': rng.choice([b'', b'hello' * 300, b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 600, b'PK\3\4' + bytes(600)]).hex()}
    if r < .09:
        return {'missing': 1}
    spec = docs.swarm(rng, True)
    if isinstance(spec, str):
        spec = {'base': spec, 'ops': []}
    if rng.random() < .2:
        spec = {'base': 'viewtext.hwp', 'ops': []}
    spec = dict(spec, ops=spec['ops'] + [['addbin', 'BIN0F0F.bin', 500, 1, 'rand']])
    if r > .94:         # values no enumeration has, in a document that can be read otherwise
        return {'base': 'sample-5017.hwp', 'ops': [
            ['vary', 'DocInfo', [[19, 'poke1', 44], [23, 'poke1', 36], [24, 'poke1', 46], [2, 'poke1', 0]]],
            ['vary', 'FileHeader', []],
            ['vary', 'BodyText/Section0', [[30, 'poke1', 4], [30, 'poke1', 5], [112, 'poke1', 8], [112, 'poke1', 9], [112, 'poke1', 11]]]]}
    if r > .6 and rng.random() < .4:
        spec = dict(spec, ops=spec['ops'] + [['vary', 'FileHeader', []]])
    if r > .7:
        body = 'ViewText' if spec['base'] == 'viewtext.hwp' else 'BodyText'
        spec = dict(spec, ops=spec['ops'] + [['vary', rng.choice(['DocInfo', 'DocInfo', body + '/Section0']), [
            [rng.randrange(200), rng.choice(['poke1', 'poke4', 'poke10', 'poke10', 'tag', 'fill']), rng.choice([0, 0, 4, 8, 20, -10, -10, rng.randrange(100)])]
            for _ in range(rng.choice([1, 3, 10]))]]])
    if r < .35:
        t = docs.tree(spec)
        leaves = [p for p in readers.ref.walk(docs.tree(spec['base'])) if p in set(readers.ref.walk(t))]
        x = rng.choice(leaves)
        n = len(docs.getp(t, x))
        spec = dict(spec, ops=spec['ops'] + [rng.choice([
            ['rawflip', x, [[rng.randrange(n + 1), rng.randrange(1, 256)] for _ in range(8)]], ['rawcut', x, rng.randrange(n + 1)],
            ['delete', x], ['delete', 'FileHeader'], ['rawflip', 'FileHeader', [[rng.choice([0, 3, 36, 36]), rng.randrange(1, 256)]]]])])
    return spec


def main(eng):
    reqs = []
    for i in range(eng.n(500, 8000)):
        rng = eng.rng('run', i)
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            d = document(rng)
            t = docs.tree({'base': d['base'], 'ops': []}) if 'base' in d else docs.tree('sample-5017.hwp')
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                op = readers.catalog(rng, t, conv=rng.random() < .6)
                ops.append([op, rng.choice([None, None, None, [rng.choice([0, 1, 3, 20]), rng.choice(['close', 'drop'])]])])
            if d.get('ops') and d['ops'][0][0] == 'vary':
                ops.append([['xml', '', False], None])
            st = {'doc': d, 'ops': ops, 'end': rng.choice(['close', 'close', 'drop'])}
            if rng.random() < .6:
                st['faults'] = [{'op': k, 'kind': m, 'arg': a} for k, (m, a) in sorted({
                    rng.choice([rng.randrange(12), rng.randrange(60), rng.randrange(400), rng.randrange(2000)]):
                    rng.choice([('err', 5), ('err', 24), ('err', 28), ('err', 12), ('sticky', 5), ('sticky', 28), ('int', 0), ('short', 1), ('eintr', 0)])
                    for _ in range(rng.choice([1, 1, 2, 4]))}.items())]
            if rng.random() < .4:
                st['proc'] = [{'i': rng.choice([0, 0, 1, 2, 3]), 'mode': rng.choice(['enoent', 'eagain', 'exit', 'die']),
                               'after': rng.choice([0, 10, 5000]), 'out': rng.choice([0, 100, 5000])}]
            steps.append(st)
        q = {'kind': 'lib', 'module': 'c14', 'fn': 'run', 'steps': steps}
        b = [m for m, p in (('olefile', .25), ('cryptography', .3), ('lxml', .35)) if rng.random() < p]
        if b:
            q['block'] = b
        if rng.random() < .4:
            q['keep'] = 1           # the converters live as long as the process
        reqs.append(q)
    pairs = lib.sweep(eng, reqs)
    lib.sample(eng, pairs)
    eng.extra['memory'] = 'largest growth per pass seen in every pass: objects %d, blocks %d, bytes %d, entries %d' % tuple(
        max([min(b - a for a, b in zip(h[k][WARM - 1:], h[k][WARM:])) for q, r in pairs if (r.get('res') or {}).get('hist')
             and 'olefile' not in (q.get('block') or ()) for h in [r['res']['hist']]] or [0]) for k in (2, 0, 1, 3))
    print(eng.extra['memory'])
    eng.finish(rule='distinct digests of (sessions, faults, outcomes, I/O event log)',
               components='hwp5 as a library with olefile, libgsf, lxml, xsltproc, xmllint, openssl, cryptography',
               stubs='process scheduling, clock, randomness')
