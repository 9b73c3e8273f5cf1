"""C10: corrupted stored data cannot make parsing run away."""
import resource
import time

from .. import docs
from .. import lib
from .. import readers
from .. import ref

CPU = 15            # seconds for one operation on a document of at most a few hundred kilobytes
MEM = 300           # growth in megabytes


def judge(eng, req, rep):
    what = '%s of %s' % (req['steps'], req['docs'])
    if rep.get('hang') or rep.get('timeout'):
        return [('hang', 'does not end: %s' % what)]
    if rep.get('res') is None:
        return [('died', 'the process dies (%s): %s: %s' % (rep['exit'], what, rep.get('stderr', '')[-200:]))]
    return [(c, m) for c, m in rep['res']['bad']]


def where(e):
    tb, at = e.__traceback__, '?'
    while tb:
        if '/hwp5/' in tb.tb_frame.f_code.co_filename:
            at = '%s.%s' % (tb.tb_frame.f_code.co_filename.rsplit('/', 1)[1][:-3], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return at


def run(shim, root, req):
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    log = lib.Log()
    try:
        rep = run1(shim, root, req, log, hard)
    except MemoryError:
        rep = None
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
    if rep is None:
        log.fail('memory', '%s of %s: out of memory' % (req['steps'], req['docs']))
        rep = log.res(worst=0, rss=0)
    return rep


def run1(shim, root, req, log, hard):
    for o in req['docs']['d.hwp'].get('ops', ()):
        for x in (o[2] if o[0] == 'rec' else [[0, o[0]]]):
            lib.fault('stored-' + x[1])
    steps = req['steps']
    size = docs.size(req['docs']['d.hwp'])
    budget = CPU + size / 100e3
    mem = MEM + size / 5e3
    soft = int(resource.getrusage(resource.RUSAGE_SELF).ru_maxrss / 1024 + mem) << 20
    with open('/proc/self/statm') as f:
        vm = int(f.read().split()[0]) * 4096
    resource.setrlimit(resource.RLIMIT_AS, (min(hard, vm + (int(mem) << 20)), hard))
    from hwp5.xmlmodel import Hwp5File
    f = None
    worst = 0
    for op in steps:
        what = '%s of %s' % (op, req['docs'])
        t0 = time.process_time()
        n = 0
        err = None
        try:
            if f is None:
                f = Hwp5File(lib.doc_path(root))
            for x in readers.make(f, op, root):
                n += 1
                if n > 5000000:
                    log.fail('endless', what)
                    break
        except MemoryError as e:
            err = 'MemoryError'
            at = where(e)
            del e
            log.fail('memory:' + at, '%s: more than %d MB for %d bytes of data' % (what, mem, size))
        except Exception as e:
            err = type(e).__name__
            if isinstance(e.__cause__, MemoryError) or isinstance(e.__context__, MemoryError):
                log.fail('memory:' + where(e), '%s: %r' % (what, e))
        dt = time.process_time() - t0
        worst = max(worst, dt)
        if dt > budget:
            log.fail('slow:' + op[0], '%s: %.0f s for %d bytes of data' % (what, dt, size))
        log.say(op, n, err)
        log.count('error' if err else 'result')
    rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    if rss > soft >> 20:
        log.fail('memory', '%s: resident size grew past %d MB' % (req['docs'], soft >> 20))
    return log.res(worst=worst, rss=rss)


def scale(shim, root, req):
    """the same operation on a document and on one four times its size"""
    log = lib.Log()
    from hwp5.xmlmodel import Hwp5File

    def once(name, op):
        t0 = time.process_time()
        err = None
        try:
            f = Hwp5File(lib.doc_path(root, name))
            for x in readers.make(f, op, root):
                pass
        except MemoryError:
            err = 'MemoryError'
        except Exception as e:
            err = type(e).__name__
        return time.process_time() - t0, err
    out = []
    once('d.hwp', req['steps'][0])
    for op in req['steps']:
        t1, e1 = once('d.hwp', op)
        t4, e4 = once('e.hwp', op)
        if t4 > 2 and t4 > 9 * t1:          # (measure again before complaining)
            t1, t4 = max(t1, once('d.hwp', op)[0]), min(t4, once('e.hwp', op)[0])
        out.append((op, round(t1, 2), round(t4, 2), e1, e4))
        if e4 == 'MemoryError':
            log.fail('memory', '%s: out of memory: %s' % (op, req['docs']['e.hwp']))
        elif t4 > 2 and t4 > 9 * t1:
            log.fail('superlinear:' + op[0], '%s: %.1f s, %.1f s for four times the data: %s' % (op, t1, t4, req['docs']['e.hwp']))
        log.say(op, e1, e4)
        log.count('scaled')
    return log.res(worst=max(x[2] for x in out), rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024, out=out)


def scaled(rng, kind):
    """(small document, large document, operations)"""
    base = rng.choice([n for n in docs.GOOD if n not in ('viewtext.hwp', 'sample-5017-pics.hwp')])
    sec = 'BodyText/Section0'
    ops, n = [], 0
    if kind == 'payload':
        p = rng.choice(['DocInfo', sec])
        n, f = 800000, lambda k: [['appendrec', p, [[900, 0, k, 1, rng0, False]]]]
        rng0 = rng.choice(['mix', 'zero'])
        ops = [['virtual', p + '.records', [4096]], ['virtual', p + '.models', [4096]], ['models', p], ['xml', '', False]]
    elif kind == 'bin':
        base = rng.choice(['shapepict-scaled.hwp', 'borderfill.hwp', 'shaperect.hwp'])
        nm = 'BIN0002.jpg' if base == 'shapepict-scaled.hwp' else 'BIN0001.jpg'
        n, f = 4000000, lambda k: [['addbin', nm, k, 1, 'mix']]
        ops = [['xml', '', True], ['convert', 'odt'], ['convert', 'dir'], ['stream', 'BinData/' + nm, [4096]]]
    elif kind == 'records':
        p = rng.choice(['DocInfo', sec])
        m = len(ref.parse_records(ref.plain_stream(docs.base_tree(base), p))[0])
        i = rng.randrange(m)
        n, f = 1000, lambda k: [['rec', p, [[i, 'dup', k]]]]
        ops = [['models', p], ['fonts'], ['xml', '', False], ['convert', 'txt'], ['virtual', p + '.models', [4096]]]
    elif kind == 'paragraphs':
        n, f = 1 + 200 // len(ref.parse_records(ref.plain_stream(docs.base_tree(base), sec))[0]), lambda k: [['repeat', sec, k]]
        ops = [['xml', '', False], ['lazygroups', sec], ['convert', 'txt']]
    elif kind == 'sections':
        n, f = 8, lambda k: [['dupsection', k]]
        ops = [['xml', '', False], ['sections'], ['convert', 'txt']]
    elif kind == 'text':
        n, f = 400000, lambda k: [['growtext', sec, 1, k]]
        ops = [['models', sec], ['xml', '', False], ['convert', 'txt']]
    elif kind == 'controls':
        c = rng.choice([10, 24, 31, 9, 9])
        n, f = 150000 if c != 9 else 50000, lambda k: [['controls', sec, k, c]]
        ops = [['models', sec]]
    elif kind == 'shapes':
        n, f = 8000, lambda k: [['shapes', sec, k]]
        ops = [['models', sec], ['xml', '', False], ['convert', 'txt']]
    elif kind == 'preview':
        n, f = 2000000, lambda k: [['addraw', 'PrvText', 2 * k, 1, 'text']]
        ops = [['info'], ['virtual', 'PrvText.utf8', [512]]]
    elif kind == 'propset':
        # (the strings of all properties may lie over one another)
        which = rng.randrange(5)
        n = 400
        f = [lambda k: [['propset', 1, k, k, 10, 0]], lambda k: [['propset', 1, k, 1, 5 * k, 1]], lambda k: [['propset', 1, k, 1, 10 * k, 2]],
             lambda k: [['propset', k, k, 1, 4, 0]], lambda k: [['propset', 1, 5 * k, 1, 200, 0]]][which]
        ops = [['summary'], ['xml', 'summary', False], ['virtual', '\x05HwpSummaryInformation.txt', [4096]]]
    return {'base': base, 'ops': f(n)}, {'base': base, 'ops': f(4 * n)}, ops


EXT = ['ffffffff', 'ffffff7f', '00000080', 'ffff', 'ff7f', '0080', 'ff', '7f', '80', '00000000', '0000', '00', 'ffffff00', '00ffffff', '0100', 'feffffff',
       'ffffffffffffffff', '00100000', 'ffff0000', '40420f00']


def mutation(rng, n):
    i = rng.randrange(max(1, n))
    k = rng.choice(['poke'] * 12 + ['level'] * 3 + ['tag', 'cut', 'cut', 'grow', 'del', 'dup', 'move', 'junk', 'junk', 'fill', 'fill', 'fill', 'chain', 'chain'])
    if k == 'poke':
        return [i, k, rng.choice([0, 0, 2, 4, 8, -2, -4, -8, rng.randrange(400), rng.randrange(60), rng.randrange(60)]), rng.choice(EXT) if rng.random() < .8 else '%08x' % rng.randrange(1 << 32)]
    if k == 'level':
        return [i, k, rng.choice([0, 1, 2, 3, 5, 30, 500, 1023])]
    if k == 'tag':
        return [i, k, rng.choice([16, 17, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 85, 86, 90, 93, 115, 0, 1023])]
    if k == 'cut':
        return [i, k, rng.randrange(1000)]
    if k == 'grow':
        return [i, k, rng.choice([1, 2, 4, 100, 5000]), rng.randrange(1000)]
    if k == 'fill':
        return [i, k, rng.choice([0, 2, 4, 8, 18, 20, rng.randrange(60), rng.randrange(60)]), rng.choice([255, 255, 127, 1, 64]),
                rng.choice([0, 0, 100, 4000, 60000])]
    if k == 'dup':
        return [i, k, rng.choice([2, 10, 300])]
    if k == 'move':
        return [i, k, rng.randrange(200)]
    if k == 'junk':
        return [i, k, rng.randrange(100000)]
    if k == 'chain':
        return [i, k, rng.choice([10, 100, 400, 1000]), rng.choice([1, 2, 4, 6, 20]), rng.choice([1, 1, 2, 3])]
    return [i, k]


# record: offset of the count, width, offset of the elements
COUNTS = {77: [(4, 2, 18)], 38: [(4, 4, 8)], 36: [(-1, 4, 12)], 83: [(0, 2, 2)], 82: [(0, 2, 2)], 66: [(12, 2, 20), (14, 2, 20), (16, 2, 20)],
          76: [(40, 2, 42), (38, 2, 40)], 17: [(i, 4, 60) for i in range(0, 60, 4)]}


def counted(rng):
    """a count raised on a record known to hold an array, with data to match"""
    for _ in range(50):
        base = rng.choice(docs.GOOD)
        t = docs.base_tree(base)
        p = rng.choice(['DocInfo'] + [x for x in ref.walk(t) if x.endswith('Section0')] * 2)
        idx = {}
        for i, r in enumerate(ref.parse_records(ref.plain_stream(t, p))[0]):
            if r[0] in COUNTS:
                idx.setdefault(r[0], []).append(i)
        if idx:
            tag = rng.choice(sorted(idx))
            i = rng.choice(idx[tag])
            o, w, d = rng.choice(COUNTS[tag])
            if o < 0:
                o = rng.randrange(0, 30)
            k = rng.choice([200, 1024, 4096, 30000])
            size = rng.choice([2, 4])
            m = [[i, 'fill', d, 0, size * k + 50], [i, 'poke', d, rng.choice(['ff', 'ff', '7f', '01']) * (size * k)]]
            if rng.random() < .2:
                m = []
                k = 0x7fffffff
            m.append([i, 'poke', o, (k & ((1 << 8 * w) - 1)).to_bytes(w, 'little').hex()])
            return {'base': base, 'ops': [['rec', p, m]]}


def spec(rng):
    if rng.random() < .1:
        return counted(rng)
    base = rng.choice(docs.GOOD)
    t = docs.base_tree(base)
    body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        p = rng.choice(['DocInfo', body + '/Section0', body + '/Section0', 'summary', 'raw'])
        if p in ('DocInfo', body + '/Section0'):
            plain = ref.plain_stream(t, p)
            n = len(ref.parse_records(plain)[0])
            m = rng.random()
            if m < .15:
                # a count raised, with data to match
                i = rng.randrange(n)
                tags = [r[0] for r in ref.parse_records(plain)[0]]
                if rng.random() < .5:
                    i = rng.choice([j for j, x in enumerate(tags) if x == rng.choice(tags)] or [i])
                if rng.random() < .6:
                    if 77 in tags and rng.random() < .6:
                        i = tags.index(77)
                    k = rng.choice([16, 200, 1024, 4096])
                    o = rng.choice([4, 4, rng.randrange(0, 30, 2)])
                    size = rng.choice([1, 2, 4, 8])
                    d = rng.choice([18, 18, o + rng.choice([2, 4, 14])])
                    ops.append(['rec', p, [[i, 'fill', d, 0, size * k + 50], [i, 'poke', d, 'ff' * (size * k)],
                                           [i, 'poke', o, (k & 0xffff).to_bytes(2, 'little').hex()]]])
                    continue
                ops.append(['rec', p, [[i, 'fill', rng.randrange(60), 255, rng.choice([3000, 60000])],
                                       [i, 'poke', rng.randrange(0, 40, 2), rng.choice(['ffff', 'ff0f', '0010', 'ffff0000'])]]])
            elif m < .8:
                ops.append(['rec', p, [mutation(rng, n) for _ in range(rng.choice([1, 1, 1, 2, 4, 10]))]])
            elif m < .95:
                ops.append(['flip', p, [[rng.randrange(len(plain)), rng.randrange(1, 256)] for _ in range(rng.choice([1, 2, 8, 100]))]])
            else:
                ops.append(['cut', p, rng.randrange(len(plain))])
        elif p == 'summary':
            s = '\x05HwpSummaryInformation'
            if s in t:
                o = rng.choice([rng.randrange(len(t[s])), rng.randrange(0, 120), 44, 48, 52, 56, 60, 64]) & ~rng.choice([0, 1, 3])
                ops.append(['poke', s, o, rng.choice(EXT)])
                if rng.random() < .5:
                    ops.append(['rawflip', s, [[rng.randrange(len(t[s])), rng.randrange(1, 256)] for _ in range(rng.choice([1, 4]))]])
        else:
            leaf = rng.choice([x for x in ref.walk(t)])
            n = max(1, len(docs.getp(t, leaf)))
            ops.append(rng.choice([['rawflip', leaf, [[rng.randrange(n), rng.randrange(1, 256)] for _ in range(rng.choice([1, 8, 64]))]],
                                   ['rawcut', leaf, rng.randrange(n)], ['addraw', leaf, rng.choice([0, 10, 5000]), rng.randrange(99), 'rand']]))
    ops.sort(key=lambda o: o[0] in ('rawflip', 'rawcut', 'addraw'))
    return {'base': base, 'ops': ops}


OPS = [['models', 'DocInfo'], ['xml', '', False], ['summary'], ['info'], ['sections'], ['fonts'], ['xml', '', True], ['groups', 'DocInfo'],
       ['unpack'], ['names']]


def main(eng):
    # (the XSL style sheets look styles up by position, paragraph by paragraph: that the page
    # output grows faster than the document is no matter of damaged data, and not judged here)
    reqs = []
    kinds = ['payload', 'bin', 'records', 'paragraphs', 'sections', 'text', 'shapes', 'preview', 'propset', 'propset', 'controls']
    for i in range(eng.n(22, 440)):
        rng = eng.rng('scale', i)
        d, e, ops = scaled(rng, kinds[i % len(kinds)])
        reqs.append({'kind': 'lib', 'module': 'c10', 'fn': 'scale', 'docs': {'d.hwp': d, 'e.hwp': e}, 'steps': ops, 'cpu': 200})
    for i in range(eng.n(4000, 60000)):
        rng = eng.rng('run', i)
        sp = spec(rng)
        t = docs.base_tree(sp['base'])
        body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
        steps = rng.sample(OPS + [['models', body + '/Section0'], ['lazygroups', body + '/Section0'], ['events', body + '/Section0'],
                                  ['one', body + '/Section0', 40], ['getter', 'summarytext'], ['virtual', body + '/Section0.models', [1000]],
                                  ['virtual', 'DocInfo.models', [1000]]], rng.choice([2, 3, 4]))
        if rng.random() < .3:
            steps[0] = ['xml', '', False]
        if rng.random() < .35:
            steps.append(['convert', rng.choice(readers.CONV + ['odt', 'dir'])])
        reqs.append({'kind': 'lib', 'module': 'c10', 'fn': 'run', 'docs': {'d.hwp': sp}, 'steps': steps, 'cpu': 90})
    reps = eng.run(reqs)
    worst = rss = 0
    for q, rep in zip(reqs, reps):
        for c, m in judge(eng, q, rep):
            eng.violation(c, m, q, judge, lib.shrink)
        if rep.get('res'):
            worst = max(worst, rep['res']['worst'])
            rss = max(rss, rep['res']['rss'])
    slow = sorted(((rep['res']['worst'], i) for i, rep in enumerate(reps) if rep.get('res')), reverse=True)[:3]
    eng.samples += ['slowest: %.1f s: %s' % (w, str({k: reqs[i][k] for k in ('docs', 'steps')})[:700]) for w, i in slow]
    eng.extra = {'worst_cpu_s': round(worst, 1), 'largest_rss_mb': rss}
    lib.sample(eng, list(zip(reqs, reps)))
    eng.finish(rule='distinct digests of (corrupted document, operations, outcome)',
               components='all parsing, XML generation and conversion code, olefile, libxslt',
               stubs='process scheduling, clock, randomness')
