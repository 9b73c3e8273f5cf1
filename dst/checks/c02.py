"""C02: no temporary file and no unreaped helper after any outcome."""
import re

from .. import cliwork

# the operations whose failure makes removal itself impossible
EXEMPT = ('unlink', 'rmdir')


def judge(eng, req, rep):
    out = []
    name = ' '.join(req['argv'][:2])
    if rep['hang']:
        return [('hang', '%s never ends (faults %s)' % (name, rep['fired']))]
    if rep['exit'] < 0 and rep['exit'] != -2:
        return []
    if any(f.get('on', '').split(' ')[0] in EXEMPT for f in rep['fired']):
        return []
    if req['argv'][0] == 'hwp5view' and any(re.match(r'(openr|close) tmp tmp/[^/]+(/bindata)?$', f.get('on', '')) for f in rep['fired']):
        return []               # amid the removal of the directory
    # with its directory unusable, a temporary file is made in the working directory
    left = rep['tmp'] + [n for n in rep['out'] if re.match(r'tmp[a-z0-9_]{8}$', n)]
    if left:
        out.append(('temp-left', '%r (exit %s) leaves %d temporary file(s); faults %s %s' % (
            req['argv'], rep['exit'], len(left), rep['fired'], req.get('proc'))))
    if rep['unreaped'] > 0:
        out.append(('unreaped', '%r (exit %s) leaves %d child process(es) unreaped of %s; faults %s %s' % (
            req['argv'], rep['exit'], rep['unreaped'], rep['spawned'], rep['fired'], req.get('proc'))))
    return out


judge_named = cliwork.named(judge)
KINDS = ('openr', 'openw', 'read', 'write', 'close', 'mkdir', 'mark', 'fsync', 'trunc', 'rename')


def main(eng):
    base = cliwork.base_requests(eng, 'docs', eng.n(4, 14))
    eng.prefetch_refs(base)
    for r in base:
        for c, m in judge_named(eng, r, eng.ref(r)):
            eng.violation(c, m, r, judge_named)
    # workloads that own temporary files or children deserve most of the runs
    hot = [r for r in base if eng.ref(r)['spawned'] or any(e[2] == 'tmp' for e in eng.ref(r)['log'])]
    names_hot, names_all = cliwork.by_name(hot), cliwork.by_name(base)
    reqs = []
    for i in range(eng.n(1700, 24000)):
        rng = eng.rng('fault', i)
        d = names_hot if rng.random() < .8 else names_all
        r = rng.choice(d[rng.choice(sorted(d))])
        rr = eng.ref(r)
        lo, hi = 0, 1 << 30
        tm = [e[0] for e in rr['log'] if e[2] in ('tmp', 'proc')]
        if tm and rng.random() < .7:        # inside the life of a temporary file or child
            k = rng.choice(tm)
            lo, hi = k - 3, k + 12

        def want(k, c, e):
            return k not in EXEMPT and c != 'stdin' and lo <= e[0] <= hi
        q = cliwork.plan(rng, r, rr, want, proc=.35,
                         allow=('err', 'short', 'closelost', 'sticky', 'eintr', 'int', 'int', 'int'))
        if q:
            if rng.random() < .3:           # the user presses ^C somewhere in it
                ops = [e[0] for e in rr['log'] if lo <= e[0] <= hi and e[1] not in EXEMPT and e[1] in KINDS
                       and not (e[1] == 'mark' and not e[8].startswith(('pipe-', 'wait:')))]
                if ops:
                    op = rng.choice(ops)
                    fs = [f for f in q.get('faults', ()) if f['op'] != op]
                    q['faults'] = sorted(fs + [{'op': op, 'kind': 'int', 'arg': 0}], key=lambda f: f['op'])
            reqs.append(q)
    pairs = list(zip(reqs, eng.run(reqs)))
    for q, rep in pairs:
        eng.probes['exit0' if rep['exit'] == 0 else 'exit!=0'] += 1
        if any(f['kind'] == 'int' for f in rep['fired']):
            eng.probes['interrupted'] += 1
        if any(m.startswith('epipe') for m in rep['marks']):
            eng.probes['helper died while written to'] += 1
        for c, m in judge_named(eng, q, rep):
            eng.violation(c, m, q, judge_named)
    cliwork.sample(eng, pairs)
    eng.finish(rule=cliwork.RULE, components=cliwork.REAL, stubs=cliwork.STUB,
               assumptions=['a removal that fails itself, and death by an uncatchable signal, are outside the property'])
