"""C16: whatever was delivered before a failure is a prefix of the full output."""
import os

from .. import cliwork


def on_output(f):
    return str(f.get('on', '')).split(' ')[1:2] in (['out'], ['stdout'])


def judge(eng, req, rep):
    if rep['exit'] == 0 and not rep['crashed'] and not all(
            on_output(f) or f['kind'] in ('short', 'eintr') for f in rep['fired']):
        # (another backend may have been chosen after all)
        return []
    refr = eng.ref(req)
    if refr['exit'] != 0:
        return []
    out = []
    for k, n, m in rep.get('cmp') or ():
        out.append(('not-prefix', '%r (exit %s): what reached %s (%d bytes) first differs from the full output (%s); '
                    'faults %s %s' % (req['argv'], rep['exit'], k, n, m, rep['fired'], req.get('proc'))))
    return out


judge_named = cliwork.named(judge)


def main(eng):
    base = cliwork.base_requests(eng, 'docs', eng.n(4, 12))
    base = [r for r in base if not r['wname'].startswith('odt-pkg') and r['wname'] not in ('odt-xsltproc',)]
    for r in base:
        r['cmp_ref'] = 1
        if r['wname'] == 'html-dir-default':
            r['wname'] = 'html-dir'
    eng.prefetch_refs(base)
    ok = cliwork.by_name([r for r in base if eng.ref(r)['exit'] == 0])
    names = sorted(ok)
    reqs = []
    for i in range(eng.n(1800, 24000)):
        rng = eng.rng('fault', i)
        r = rng.choice(ok[names[i % len(names)]])
        rr = eng.ref(r)
        want = rng.choice([
            lambda k, c, e: c in ('out', 'stdout') and k in ('write', 'close'),
            lambda k, c, e: c in ('out', 'stdout') and k in ('write', 'close'),
            lambda k, c, e: c in ('in', 'tmp', 'proc', 'res', 'stdin', 'out') and not e[8].startswith('spawn:'),
        ])
        q = cliwork.plan(rng, r, rr, want, proc=0,
                         allow=('err', 'short', 'closelost', 'sticky', 'eintr', 'int'), nmax=3)
        if rr['spawned'] and rng.random() < .3:
            f = cliwork.proc_fault(rng, rr['spawned'])
            if f['mode'] in ('die', 'exit'):
                q = dict(q or r, proc=[f])
        if rng.random() < .35:                       # killed outright
            ops = [e for e in rr['log'] if e[1] in ('write', 'read', 'close', 'openw', 'mkdir')]
            wr = [e for e in ops if e[2] in ('out', 'stdout')]
            if wr and rng.random() < .6:
                ops = wr
            if ops:
                e = rng.choice(ops)
                arg = rng.choice([0, 1, 100, 3000]) if e[1] == 'write' else 0
                q = dict(q or r)
                q['faults'] = sorted([f for f in q.get('faults', ()) if f['op'] != e[0]] +
                                     [{'op': e[0], 'kind': 'crash', 'arg': arg}], key=lambda f: f['op'])
        if q and rng.random() < .3:
            q = cliwork.earlier(rng, q, rr)
        if q:
            reqs.append(q)
    for i in range(eng.n(130, 1500)):
        rng = eng.rng('choppy', i)
        r = rng.choice(ok[names[i % len(names)]])
        q = cliwork.choppy(rng, r, eng.ref(r))
        if q:
            reqs.append(q)
    pairs = list(zip(reqs, eng.run(reqs)))
    for q, rep in pairs:
        eng.probes['crashed' if rep['crashed'] else 'exit0' if rep['exit'] == 0 else 'exit!=0'] += 1
        if rep.get('cmp_partial'):
            eng.probes['partial output compared'] += 1
        if q.get('stale'):
            eng.probes['over earlier files'] += 1
        for c, m in judge_named(eng, q, rep):
            eng.violation(c, m, q, judge_named)
    cliwork.sample(eng, pairs)
    eng.finish(rule=cliwork.RULE, components=cliwork.REAL, stubs=cliwork.STUB,
               assumptions=['a helper that is not installed or fails its probe changes the layout of the whole output and is excluded'])
