"""C07: documents converted in concurrent threads come out as if converted alone."""
import os
import random  # noqa

from .. import docs
from .. import lib
from .. import readers
from .c09 import digest

FRESH = {'DST_FRESH': '1'}


def source(root, t, k):
    from hwp5.xmlmodel import Hwp5File
    if t.get('fault'):
        return Hwp5File(lib.SimStorage(docs.tree(t['spec']), lib.World((0,), {t['fault'][0]: [t['fault'][1]]})))
    return Hwp5File(lib.doc_path(root, '%d.hwp' % k))


def work(root, k, t, out, cache):
    """what thread k does: open, read, convert and close its documents"""
    here = os.path.join(root, 'cwd', 't%d' % k)     # each thread its own directory
    os.makedirs(here + '/cwd', exist_ok=True)
    f = None
    for op in t['ops']:
        try:
            if op[0] == 'reopen':
                if f is not None:
                    f.close()
                f = None
                r, err = ['open'], None
            else:
                if f is None:
                    f = source(root, t, k)
                if not t.get('keep'):
                    cache.clear()
                r, err = readers.run_alone(f, op, here, cache)
        except Exception as e:
            r, err = [], e
        out.append(digest(r, op) if err is None else ['error', repr(err)[:200].replace(root, '')])
    if f is not None:
        f.close()


def run(shim, root, req):
    from .. import sched
    from .. import simproc  # noqa
    log = lib.Log()
    ts = req['threads']
    outs = [[] for _ in ts]
    if req.get('alone'):
        for k, t in enumerate(ts):
            work(root, k, t, outs[k], {})
        return log.res(got=outs)
    sched.patch_locks()
    s = sched.Sched(req['policy'], lib.REPO_SRC)
    sched.SimLock.sched = s
    errs = s.run([lambda k=k, t=t: work(root, k, t, outs[k], {}) for k, t in enumerate(ts)])
    sched.SimLock.sched = None
    log.say(s.nswitch, s.steps, s.switches[:5000])
    log.count('switches', s.nswitch)
    log.count('scheduling points', s.steps)
    for k, (e, t) in enumerate(zip(errs, ts)):
        if e:
            log.fail('thread-died', 'thread %d: %s' % (k, e))
            continue
        for op, got, want in zip(t['ops'], outs[k], t['want']):
            log.count('compared')
            if got != want:
                log.fail('differs', 'thread %d of %d: %s gives %s instead of %s (%d switches; the other threads: %s)' % (
                    k, len(ts), op, got, want, s.nswitch, [x['ops'] for j, x in enumerate(ts) if j != k]))
                break
    if s.stopped:
        log.count('stopped scheduling')
    return log.res(switches=s.switches if log.bad else [], steps=s.steps, nswitch=s.nswitch)


def judge(eng, req, rep):
    v = lib.judge(eng, req, rep)
    if v and (rep.get('res') or {}).get('switches'):
        req['_switches'] = rep['res']['switches']
    return v


def shrink(req):
    q = {k: v for k, v in req.items() if k != '_switches'}
    sw = req['policy'].get('switches')
    if sw is None:
        s = req.get('_switches')
        if s and len(s) < 20000:
            yield dict(q, policy=dict({k: v for k, v in q['policy'].items() if k != 'p'}, switches=s))
    else:
        n = len(sw)
        c = n // 2
        while c >= 1:
            for i in range(0, n, c):
                yield dict(q, policy=dict(q['policy'], switches=sw[:i] + sw[i + c:]))
            if n // c > 16:
                break
            c //= 2
    ts = q['threads']
    if len(ts) > 2 and sw is None:
        for i in range(len(ts)):
            yield dict(q, threads=ts[:i] + ts[i + 1:])
    if sw is None:
        for i, t in enumerate(ts):
            if len(t['ops']) > 1:
                for j in range(len(t['ops'])):
                    u = dict(t, ops=t['ops'][:j] + t['ops'][j + 1:], want=t['want'][:j] + t['want'][j + 1:])
                    yield dict(q, threads=ts[:i] + [u] + ts[i + 1:])


def main(eng):
    small = ['sample-5017.hwp', 'aligns.hwp', 'charshape.hwp', 'charstyle.hwp', 'linespacing.hwp', 'lists.hwp', 'tabdef.hwp', 'viewtext.hwp',
             'facename2.hwp', 'parashape.hwp', 'borderfill.hwp', 'shapeline.hwp', 'footnote-endnote.hwp', 'headerfooter.hwp', 'table-caption.hwp',
             'shapepict-scaled.hwp', 'underline-styles.hwp', 'outlines.hwp']
    small = [n for n in small if n in docs.GOOD]
    base = []
    for i in range(eng.n(220, 4000)):
        rng = eng.rng('run', i)
        ts = []
        same = rng.random() < .3
        for k in range(rng.choice([2, 2, 2, 3, 4])):
            if same and ts and rng.random() < .8:
                t = dict(ts[0])         # several threads do the same for the first time
            else:
                n = rng.choice(small)
                spec = {'base': n, 'ops': []}
                if rng.random() < .3:
                    spec['ops'].append(['addbin', 'BIN0101.bin', 5000, k, 'mix'])
                if rng.random() < .2 and n != 'viewtext.hwp':
                    spec['ops'].append(['dupsection', 2])
                tree = docs.tree(spec)
                ops = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    op = readers.catalog(rng, tree, conv=rng.random() < .6)
                    ops.append(op)
                    if rng.random() < .2:
                        ops.append(['reopen'])
                t = {'spec': spec, 'ops': ops}
                if rng.random() < .15:
                    leaves = [p for p in readers.ref.walk(tree)]
                    t['fault'] = [rng.choice(leaves), rng.choice([{'kind': 'open'}, {'kind': 'read', 'at': rng.choice([0, 10, 500])}])]
                if rng.random() < .3:
                    t['keep'] = 1
            ts.append(t)
        q = {'kind': 'lib', 'module': 'c07', 'fn': 'run', 'threads': ts, 'docs': {'%d.hwp' % k: t['spec'] for k, t in enumerate(ts)}}
        b = [m for m, p in (('olefile', .15), ('cryptography', .25), ('lxml', .15)) if rng.random() < p]
        if b:
            q['block'] = b
        q['cpu'] = 80
        base.append(q)
    # each thread's work alone, in a process of its own
    alone = [dict(q, alone=1, threads=[t], docs={'0.hwp': t['spec']}) for q in base for t in q['threads']]
    reps = iter(eng.run(alone))
    reqs = []
    for i, q in enumerate(base):
        ts = [dict(t, want=next(reps)['res']['got'][0]) for t in q['threads']]
        for j in range(eng.n(3, 10)):
            rng = eng.rng('sched', i, j)
            pol = {'seed': rng.randrange(1 << 30), 'p': rng.choice([.3, .03, .003, .0003, .00003])}
            if rng.random() < .2:
                pol['grain'] = 'instruction'
            r = dict(q, threads=ts, policy=pol)
            if rng.random() < .6:
                r['pool'] = FRESH
            reqs.append(r)
    reps = eng.run(reqs)
    for q, rep in zip(reqs, reps):
        for c, m in judge(eng, q, rep):
            eng.violation(c, m, q, judge, shrink)
    for q, rep in list(zip(reqs, reps))[::max(1, len(reqs) // 8)][:10]:
        eng.samples.append('%s policy=%s -> %s' % ([t['ops'] for t in q['threads']], q['policy'], (rep.get('res') or {}).get('stat')))
    eng.finish(rule='distinct digests of (interleaving as the sequence of switch points, results, I/O event log)',
               components='hwp5 as a library with all backends, real interpreter threads passing one baton',
               stubs='thread scheduling (seeded, at every line or instruction of hwp5), locks, tools run synchronously, clock, randomness')
