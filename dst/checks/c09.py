"""C09: after a transient failure, trying again gives the full result."""
import hashlib
import sys

from .. import docs
from .. import lib
from .. import readers
from .. import ref
from ..lib import judge  # noqa


def digest(items, op=None):
    if op and op[0] == 'convert' and ref.etree is not sys.modules.get('lxml.etree'):
        from .c12 import normal     # (the validating xmllint serialises its input again)
        items = normal(op, items)
        if items[0] == 'x':
            items = items[1:]
    h = hashlib.sha1()
    if items and isinstance(items[0], bytes):
        h.update(b''.join(items))
    else:
        h.update(repr(items).encode('utf-8', 'replace'))
    return [len(items) if not (items and isinstance(items[0], bytes)) else -1, h.hexdigest()]


class World(lib.World):
    """the fault of one step: the nth open of any stream from now on fails,
    or delivers up to an offset and then fails"""
    plan = None
    seen = 0

    def open(self, path, data):
        p = self.plan
        if p is not None:
            self.seen += 1
            if self.seen - 1 == p['n']:
                self.faults = {path: [dict(p, n=self.opens.get(path, -1) + 1)]}
        s = super().open(path, data)
        if self.faults:
            s.path = path
        return s


def run(shim, root, req):
    log = lib.Log()
    sim = req.get('sim')
    world = World((0,)) if sim else None
    cache = {}
    state = {}
    spans, got = [], []
    names = [s['op'] for s in req['steps']]

    def opendoc():
        from hwp5.xmlmodel import Hwp5File
        if sim:
            return Hwp5File(lib.SimStorage(docs.tree(req['docs']['d.hwp']), world))
        return Hwp5File(lib.doc_path(root))

    def once(op):
        if 'doc' not in state or op[0] == 'reopen':
            if 'doc' in state:
                state.pop('doc').close()
            state['doc'] = opendoc()
        if op[0] == 'reopen':
            return ['open']
        if op[0] == 'new-transform':
            cache.pop(op[1], None)
            readers.transformer(op[1], cache)
            return ['made']
        out = []
        for x in readers.make(state['doc'], op, root, cache):
            out.append(x)
        return out

    shim.activate(1)
    for i, st in enumerate(req['steps']):
        op, want, plan = st['op'], st.get('want'), st.get('plan')
        what = 'step %d %s of %s' % (i, op, names)
        a = shim.ctl.nops
        if world:
            world.plan, world.seen, world.faults = plan, 0, {}
            o0 = sum(world.opens.values())
        n0 = len(shim.fired())
        err = None
        try:
            r = once(op)
        except KeyboardInterrupt as e:
            err = e
        except Exception as e:
            err = e
        if world:
            spans.append([0, world.seen if plan else sum(world.opens.values()) - o0 + 1])
            world.plan, world.faults = None, {}
        else:
            spans.append([a, shim.ctl.nops])
        shim.activate(0)
        hit = len(shim.fired()) > n0 or bool(req.get('proc')) or bool(plan)
        log.say(op, repr(err)[:80])
        if want is None:
            got.append(digest(r, op) if err is None else ['error', repr(err)[:200]])
            shim.activate(1)
            continue
        if err is not None and want[0] != 'error':
            log.count('failed')
            if not hit and not req.get('faults'):
                log.fail('spread', '%s: fails with %r without a fault' % (what, err))
            # the fault is gone
            shim.disarm()
            from .. import simproc
            simproc.E.faults = {}
            shim.activate(1)
            try:
                r = once(op)
            except Exception as e:
                shim.activate(0)
                log.fail('no-recovery', '%s: failed with %r; the second attempt, without a fault, fails with %r' % (what, err, e))
                r = None
            shim.activate(0)
            if r is not None:
                log.count('recovered')
                if digest(r, op) != want:
                    log.fail('wrong-retry', '%s: failed with %r; the second attempt differs from the undisturbed result' % (what, err))
        elif err is None:
            if digest(r, op) != want:
                log.fail('wrong', '%s: succeeds with a result other than the undisturbed one%s' % (
                    what, ' (fault absorbed)' if hit else ''))
        elif repr(err)[:200] != want[1] and not hit:
            log.fail('spread', '%s: %r instead of %s' % (what, err, want[1]))
        shim.activate(1)
    shim.activate(0)
    return log.res(spans=spans, got=got, spawned=len([1 for x in shim.log() if x[1] == 'mark' and x[8].startswith('spawn:')]))


def main(eng):
    base = []
    for i in range(eng.n(260, 2500)):
        rng = eng.rng('run', i)
        spec = docs.swarm(rng, True)
        if i % 6 == 1:
            spec = {'base': 'viewtext.hwp', 'ops': []}
        tree = docs.tree(spec)
        sim = i % 3 == 0
        steps = [readers.catalog(rng, tree, conv=rng.random() < .5) for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < .4:
            steps.insert(rng.randrange(len(steps) + 1), ['reopen'])
        if rng.random() < .4:
            steps.insert(rng.randrange(len(steps) + 1), ['new-transform', rng.choice(readers.CONV)])
        if rng.random() < .5:
            steps.append(rng.choice(steps))
        q = {'kind': 'lib', 'module': 'c09', 'fn': 'run', 'docs': {'d.hwp': spec}, 'steps': [{'op': o} for o in steps]}
        if sim:
            q['sim'] = 1
        else:
            b = []
            if rng.random() < .3:
                b.append('olefile')
            if rng.random() < .35:
                b.append('cryptography')
            if rng.random() < .35:
                b.append('lxml')
            if b:
                q['block'] = b
        base.append(q)
    first = lib.sweep(eng, [dict(q, want_log=1) for q in base])
    reqs = []
    for i, (q, rep) in enumerate(first):
        rng = eng.rng('fault', i)
        res = rep.get('res')
        if not res:
            continue
        q = dict(q, want_log=0, steps=[dict(st, want=w) for st, w in zip(q['steps'], res['got'])])
        for _ in range(eng.n(8, 60)):
            if q.get('sim'):
                k = rng.randrange(len(q['steps']))
                n = rng.randrange(max(1, res['spans'][k][1]))
                m = rng.choice(['open', 'read', 'read'])
                p = {'n': n, 'kind': m}
                if m == 'read':
                    p['at'] = rng.choice([0, 1, 4, 100, 512, 5000])
                    p['fails'] = rng.choice([1, 1, 2, -1])
                else:
                    p['errno'] = rng.choice([5, 24, 12])
                reqs.append(dict(q, steps=[dict(st, plan=p) if j == k else st for j, st in enumerate(q['steps'])]))
            else:
                fs = []
                ops = [e for e in rep['log'] if e[1] in ('openr', 'openw', 'read', 'write', 'close', 'mark', 'opendir', 'mkdir')]
                if not ops:
                    continue
                for _ in range(rng.choice([1, 1, 2])):
                    # an equal chance for every kind of operation, then for each of that kind
                    kind = rng.choice(sorted(set((e[1], e[2]) for e in ops)))
                    e = rng.choice([e for e in ops if (e[1], e[2]) == kind])
                    if e[1] == 'mark':
                        nm = e[8].split(':')[0]
                        if nm in ('spawn', 'pipe-write', 'pipe-read'):
                            f = {'op': e[0], 'kind': rng.choice(['err', 'err', 'int']), 'arg': {'spawn': 11}.get(nm, 32)}
                        elif nm == 'wait':
                            f = {'op': e[0], 'kind': 'int', 'arg': 0}
                        else:
                            continue
                    elif e[1] in ('openr', 'openw'):
                        f = {'op': e[0], 'kind': 'err', 'arg': rng.choice([24, 23, 5, 12])}
                    elif e[1] in ('mkdir', 'opendir'):
                        f = {'op': e[0], 'kind': 'err', 'arg': rng.choice([12, 5])}
                    elif e[1] == 'write':
                        f = {'op': e[0], 'kind': rng.choice(['err', 'short', 'sticky', 'int']), 'arg': rng.choice([28, 5, 122])}
                    elif e[1] == 'close':
                        f = {'op': e[0], 'kind': 'err', 'arg': 5}
                    else:
                        f = {'op': e[0], 'kind': rng.choice(['err', 'err', 'sticky', 'short', 'int']), 'arg': 5}
                    if f['kind'] == 'short':
                        f['arg'] = rng.choice([1, 100])
                    fs.append(f)
                r = dict(q, faults=sorted({f['op']: f for f in fs}.values(), key=lambda f: f['op']))
                if res.get('spawned') and rng.random() < .4:
                    r['proc'] = [{'i': rng.randrange(res['spawned']), 'mode': rng.choice(['enoent', 'eagain', 'exit', 'die']),
                                  'after': rng.choice([0, 10, 5000]), 'out': rng.choice([0, 100, 5000])}]
                    if rng.random() < .5:
                        r['faults'] = []
                if r['faults'] or r.get('proc'):
                    reqs.append(r)
    pairs = lib.sweep(eng, reqs)
    lib.sample(eng, pairs)
    eng.finish(rule='distinct digests of (operation sequence, fault placement, I/O event log)',
               components='hwp5 as a library: document, transforms, backends (olefile, libgsf, lxml, xsltproc, xmllint, openssl, cryptography)',
               stubs='process scheduling, clock, randomness; in a third of the runs the storage below the document')
