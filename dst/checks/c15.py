"""C15: diagnostics never change the result."""
import re

from .. import cliwork

LEVELS = ['debug', 'info', 'warning', 'error', 'critical', 'DEBUG', 'Info', 'nonsense']


def strip(out):
    return {k: v for k, v in out.items() if k != 'log.txt'}


def judge(eng, req, rep):
    if rep['hang']:
        return [('hang', '%r never ends' % (req['argv'],))]
    refr = eng.ref(req['plain'])
    if refr['hang']:
        return []
    out = []
    what = '%r env %s faults %s' % (req['argv'], req.get('env'), rep['fired'])
    if any(f.get('on', '').split(' ')[1:2] not in (['stderr'], ['log'], ['out']) or
           f.get('on', '').split(' ')[1:2] == ['out'] and 'log.txt' not in f['on'] for f in rep['fired']):
        return []               # the shifted fault hit something else
    lost = any(f['kind'] == 'sticky' and f.get('on', '').startswith('write stderr') for f in rep['fired'])
    if lost and rep['exit'] == 120:
        pass                    # the interpreter's own report that the standard error could not be flushed at exit
    elif rep['exit'] != refr['exit'] and not (rep['fired'] and refr['exit'] != 0 and rep['exit'] != 0):
        out.append(('exit', 'exit status %s instead of %s: %s: %s' % (rep['exit'], refr['exit'], what, rep['stderr'][-200:])))
    if out:
        pass
    elif rep['stdout'] != refr['stdout']:
        out.append(('stdout', 'standard output is %s instead of %s: %s' % (rep['stdout'], refr['stdout'], what)))
    elif strip(rep['out']) != strip(refr['out']):
        d = [k for k in sorted(set(strip(rep['out'])) | set(refr['out'])) if rep['out'].get(k) != refr['out'].get(k)]
        out.append(('output', 'output differs in %s: %s' % (d[:3], what)))
    if rep['tmp'] != refr['tmp'] or not rep['inputs_same']:
        out.append(('side-effect', 'temporary files %s, input intact %s: %s' % (rep['tmp'], rep['inputs_same'], what)))
    return out


judge_named = cliwork.named(judge)


def variant(rng, r):
    """the same command with other diagnostics"""
    q = dict(r, plain=r)
    a = list(r['argv'])
    env = dict(r.get('env') or {})
    opts = []
    lv = rng.choice(LEVELS + [None])
    if lv:
        if rng.random() < .5:
            opts += ['--loglevel', lv]
        else:
            env['PYHWP_LOGLEVEL'] = lv
    if rng.random() < .5:
        if rng.random() < .5:
            opts += ['--logfile', 'log.txt']
        else:
            env['PYHWP_LOGFILE'] = 'log.txt'
    q['argv'] = a[:1] + opts + a[1:]
    if env:
        q['env'] = env
    return q


def main(eng):
    base = []
    n = eng.n(7, 30)
    from .. import docs
    for i in range(n):
        rng = eng.rng('docs', i)
        spec = docs.swarm(rng, True)
        if i == 1:
            spec = 'viewtext.hwp'
        if i == 3:                  # pictures inside the document
            spec = {'base': 'sample-5017-pics.hwp', 'ops': []}
        if i % 4 == 2:              # documents that are diagnosed
            spec = spec if isinstance(spec, dict) else {'base': spec, 'ops': []}
            body = 'ViewText' if spec['base'] == 'viewtext.hwp' else 'BodyText'
            spec = dict(spec, ops=spec['ops'] + [rng.choice([
                ['flip', 'DocInfo', [[rng.randrange(4000), 1 << rng.randrange(8)] for _ in range(2)]],
                ['appendrec', body + '/Section0', [[0x10 + 90, 0, 10, 1, 'mix', False], [67, 3, 9, 1, 'mix', False]]],
                ['delete', 'BinData'] if 0 else ['append', 'DocInfo', '0102'],
            ])])
        for name, req in cliwork.workloads(rng, spec):
            req['wname'] = name
            base.append(req)
    eng.prefetch_refs(base)
    byn = cliwork.by_name(base)
    names = sorted(byn)
    first, second = [], []
    for i in range(eng.n(900, 9000)):
        rng = eng.rng('var', i)
        first.append(variant(rng, rng.choice(byn[names[i % len(names)]])))
    eng.prefetch_refs(first)
    for q in first:
        for c, m in judge_named(eng, q, eng.ref(q)):
            eng.violation(c, m, q, judge_named)
    # failing diagnostics
    for i in range(eng.n(900, 9000)):
        rng = eng.rng('fault', i)
        q = first[rng.randrange(len(first))]
        ops = [e for e in eng.ref(q)['log'] if e[1] in ('write', 'close') and
               (e[2] == 'stderr' or e[2] == 'out' and e[8].endswith('log.txt'))]
        if not ops:
            continue
        if rng.random() < .7:
            ops = [e for e in ops if e[1] == 'write'] or ops
        e = rng.choice([ops[0], rng.choice(ops), rng.choice(ops)])
        if e[1] == 'write':
            if e[2] == 'stderr':
                f = rng.choice([('err', 5), ('err', 28), ('sticky', 28), ('sticky', 32), ('sticky', 5), ('short', 1), ('eintr', 0)])
            else:
                f = rng.choice([('err', 28), ('short', 3), ('eintr', 0), ('err', 5)])
        else:
            f = ('err', 5)
        second.append(dict(q, faults=[{'op': e[0], 'kind': f[0], 'arg': f[1]}]))
    pairs = list(zip(second, eng.run(second)))
    for q, rep in pairs:
        eng.probes['fault in %s' % ' '.join(rep['fired'][0].get('on', '?').split(' ')[:2]) if rep['fired'] else 'not reached'] += 1
        for c, m in judge_named(eng, q, rep):
            eng.violation(c, m, q, judge_named)
    cliwork.sample(eng, pairs)
    eng.finish(rule=cliwork.RULE, components=cliwork.REAL, stubs=cliwork.STUB,
               assumptions=['with the standard error failing for good, the interpreter turns exit status 0 into 120 at shutdown',
                     'a log file that cannot be created is a usage error, not a failing diagnostic'])
