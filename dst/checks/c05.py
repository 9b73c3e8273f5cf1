"""C05: truncated or failing data is reported, never taken for a clean end."""
import uuid

from .. import docs
from .. import lib
from .. import ref
from ..lib import judge  # noqa


def synth(rng_seed, n):
    import random
    r = random.Random('synth%s' % rng_seed)
    recs = []
    for _ in range(n):
        size = r.choice([0, 0, 1, 2, 3, 4, 5, 22, 100, 0xffe, 0xfff, 0x1000, 9000])
        recs.append((r.choice([16, 17, 66, 67, 68, 77, 200, 0x3ff, 0]), r.choice([0, 1, 2, 3, 7, 0x3ff]),
                     docs.blob(size, r.randrange(1 << 20)), r.random() < .15))
    return recs


def rec3(r):
    return (r['tagid'], r['level'], bytes(r['payload']))


def pull(it, log, what, conv, limit=100000):
    """-> (items, exception or None)"""
    out = []
    try:
        for x in it:
            out.append(conv(x))
            if len(out) > limit:
                log.fail('no-end', what + ': endless')
                break
    except Exception as e:
        return out, e
    return out, None


def check_items(log, what, got, err, want, torn, failed, seq=None):
    if got != want:
        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        g = repr(got[k])[:120] if k < len(got) else 'nothing'
        w = repr(want[k])[:120] if k < len(want) else 'nothing'
        log.fail('items', '%s: %d items instead of %d; item %d is %s instead of %s (then %r)' % (
            what, len(got), len(want), k, g, w, err))
    elif err is None and (torn is not None or failed):
        log.fail('clean-end', '%s: ends normally after %d items although the data %s' % (
            what, len(got), 'source failed' if failed else 'ends inside a record'))
    elif err is not None and torn is None and not failed:
        log.fail('spurious', '%s: %s: %s on intact data' % (what, type(err).__name__, err))


def run(shim, root, req):
    log = lib.Log()
    for st in req['steps']:
        what = '%s %s' % (st['mode'], {k: v for k, v in st.items() if k != 'mode'})
        log.say(what)
        log.count(st['mode'])
        step(log, st, req, what, shim, root)
    return log.res()


def step(log, st, req, what, shim, root):
    mode = st['mode']
    from hwp5 import recordstream
    if mode in ('raw', 'one'):
        recs = synth(st['synth'], st['n'])
        data = ref.encode_records(recs)
        cut, fail = st.get('cut'), st.get('fail')
        if cut is not None:
            data = data[:place(recs, cut)]
        fail_at = place(recs, fail) if fail is not None else None
        if fail_at is not None and fail_at >= len(data):
            fail_at = None
        want, torn = ref.parse_records(data if fail_at is None else data[:fail_at])
        if fail_at is not None:
            torn = None
        src = lib.SimSource(data, st['splits'], fail_at)
        log.count('torn' if torn is not None else 'failing' if fail_at is not None else 'intact')
        if cut is not None:
            lib.fault('sim-truncated-stream')
        with lib.guard(log, what):
            if mode == 'raw':
                got, err = pull(recordstream.read_records(src), log, what, lambda r: rec3(r) + (r['seqno'],))
                want = [w + (i,) for i, w in enumerate(want)]
            else:
                def gen():
                    i = 0
                    while True:
                        r = recordstream.read_record(src, i)
                        if not r:
                            return
                        yield r
                        i += 1
                got, err = pull(gen(), log, what, rec3)
            check_items(log, what, got, err, want, torn, fail_at is not None)
            if fail_at is not None and err is not None and not isinstance(err, OSError):
                log.count('other error type')
        return
    if mode == 'summary':
        return summary(log, st, what)
    if mode == 'disk':
        return disk(log, st, req, what, shim, root)
    # through the document
    from hwp5.xmlmodel import Hwp5File
    t = docs.tree(req['docs']['d.hwp'])
    if st.get('plain'):
        t = lib.plain_tree(t)
    path = st['path']
    plain = ref.plain_stream(t, path)
    recs, _ = ref.parse_records(plain)
    whole = t
    t = docs.copytree(t)
    cut, fail = st.get('cut'), st.get('fail')
    torn, loose = None, False
    part = False
    uncut = cut is None and st.get('dcut') is None
    if st.get('dcut') is not None:          # the encrypted bytes end early
        b = docs.getp(t, path)
        n = st['dcut']
        n = 260 + max(0, len(b) - 260 + n) if n < 0 else n if n < 260 else 260 + int((len(b) - 260) * (n - 260) / 1e6)
        lib.fault('sim-truncated-stream')
        part = n < 260 or (n - 260) % 16 != 0
        docs.setp(t, path, b[:n if n < 260 else n - (n - 260) % 16])
        plain = ref.plain_stream(t, path) if n >= 260 else b''
        docs.setp(t, path, b[:n])
    if cut is not None:
        n = place(recs, cut)
        docs.put_plain(t, path, plain[:n])
        plain = ref.plain_stream(t, path)       # the cipher pads
    want, torn = ref.parse_records(plain)
    if part:            # no part of a block can be decrypted
        torn, loose = torn or 'block', True
    faults = {}
    stored = docs.getp(t, path)
    if fail is not None:
        at = place(recs, fail) if st.get('plain') else int(len(stored) * fail[2])
        if at < len(stored):
            faults = {path: [{'kind': 'read', 'at': at}]}
            if st.get('plain'):
                want, torn = ref.parse_records(plain[:at])[0], None
            else:
                # where the failure shows in the decoded data is not known
                want, loose = ref.parse_records(plain)[0], True
    failed = bool(faults)
    if failed:
        torn = None
    log.count('torn' if torn is not None else 'failing' if failed else 'intact')
    if cut is not None:
        lib.fault('sim-truncated-stream')

    def stream(tree, faults):
        f = Hwp5File(lib.SimStorage(tree, lib.World(st['splits'], faults)))
        if path == 'DocInfo':
            return f.docinfo
        return f.text.section(int(path.rsplit('Section', 1)[1]))

    def check(log, what, got, err, want, torn, failed):
        if loose and err is not None:
            want = want[:len(got)]
        check_items(log, what, got, err, want, torn, failed)

    def conv_model(m):
        return lib.freeze({k: v for k, v in m.items() if k not in ('binevents', 'unparsed', 'parent', 'sister')})

    with lib.guard(log, what):
        if mode == 'records':
            def f():
                for r in stream(t, faults).records():
                    yield r
            got, err = pull(f(), log, what, rec3)
            check(log, what, got, err, want, torn, failed)
        elif mode == 'range':
            a, b = st['range']

            def f():
                for r in stream(t, faults).records(range=(a, b)):
                    yield r
            got, err = pull(f(), log, what, rec3)
            w = want[a:b]
            reached = len(want) >= b          # stops before the fault
            if got != w or (not reached and err is None and (torn is not None or failed)):
                check(log, what, got, err, w, torn, failed)
        elif mode == 'groups':
            def f():
                for g in stream(t, faults).records_treegrouped():
                    for r in g:
                        yield r
            got, err = pull(f(), log, what, rec3)
            tops = [i for i, r in enumerate(want) if r[1] == 0 or i == 0] if not loose else []
            if got != want[:len(got)] or len(got) < (tops[-1] if tops else 0):
                check(log, what, got, err, want, torn, failed)
            elif (torn is not None or failed) and err is None:
                log.fail('clean-end', what + ': groups end normally')
            elif torn is None and not failed:
                check(log, what, got, err, want, None, False)
        elif mode == 'models':
            full, e0 = pull(stream(whole, {}).models(), log, what, conv_model)
            def f():
                for m in stream(t, faults).models():
                    yield m
            got, err = pull(f(), log, what, conv_model)
            if e0 is None:
                if err is not None and (torn is not None or failed):
                    # models come by top-level trees: the tree the fault is in may be missing
                    tops = [i for i, r in enumerate(want) if r[1] == 0 or i == 0] if not loose else []
                    least = tops[-1] if tops else 0
                    if not least <= len(got) <= len(want) or got != full[:len(got)]:
                        check(log, what, got, err, full[:len(want)], torn, failed)
                else:
                    check(log, what, got, err, full[:len(want)], torn, failed)
        elif mode == 'json':
            def chunks(tree, fl):
                s = stream(tree, fl)
                how = st.get('how', 'formats')
                if how == 'formats':
                    r = s.other_formats()[st['fmt']]()
                    return iter(lambda: r.read(st.get('portion', 777)), b'')
                j = s.records_json() if st['fmt'] == '.records' else s.models_json()
                if how == 'open':
                    r = j.open()
                    return iter(lambda: r.read(st.get('portion', 777)), b'')
                return (x.encode('utf-8') for x in j.generate())
            full, e0 = pull(chunks(whole, {}), log, what, bytes)
            def f():
                for c in chunks(t, faults):
                    yield c
            got, err = pull(f(), log, what, bytes)
            if e0 is None:
                full, got = b''.join(full), b''.join(got)
                if err is None and (torn is not None or failed):
                    log.fail('clean-end', what + ': the JSON stream ends normally')
                if err is not None and torn is None and not failed:
                    log.fail('spurious', '%s: %r' % (what, err))
                if full[:len(got)] != got and (err is not None or uncut):
                    log.fail('items', '%s: the JSON before the fault differs: %s' % (what, lib.diff(got, full)))
        elif mode == 'xml':
            def events(tree, fl):
                f = Hwp5File(lib.SimStorage(tree, lib.World(st['splits'], fl)))
                return f.xmlevents().bytechunks()
            full, e0 = pull(events(whole, {}), log, what, bytes)
            def f():
                for c in events(t, faults):
                    yield c
            got, err = pull(f(), log, what, bytes)
            if e0 is None:
                if err is None and (torn is not None or failed):
                    log.fail('clean-end', what + ': the XML ends normally')
                if err is not None and torn is None and not failed and uncut:
                    log.fail('spurious', '%s: %r' % (what, err))
                if uncut and b''.join(full)[:sum(map(len, got))] != b''.join(got):
                    log.fail('items', what + ': XML before the fault differs')
        elif mode == 'seek':        # one record by its index
            i = st['idx']
            try:
                r = stream(t, faults).record(i)
                if r is not None and (i >= len(want) or rec3(r) != want[i]):
                    log.fail('items', '%s: record %d is %s' % (what, i, repr(r)[:100]))
                if r is None and (i < len(want) or torn is not None or failed):
                    log.fail('clean-end', '%s: record %d reported absent' % (what, i))
            except Exception as e:
                if i < len(want) and not loose or torn is None and not failed:
                    log.fail('spurious', '%s: record %d: %r' % (what, i, e))


def propset(seed):
    """-> bytes of a summary information stream, {id: value}, [(begin, end)] of its parts"""
    import datetime
    import random
    import struct
    r = random.Random('propset%s' % seed)
    ids = r.sample([2, 3, 4, 5, 6, 8, 9, 20, 11, 12, 13, 14, 21, 30], r.choice([1, 3, 8, 13]))
    parts = []
    for i in ids:
        k = r.choice([3, 0x1f, 0x1f, 0x40])
        if k == 3:
            v = r.randrange(-5, 1 << 31)
            b = struct.pack('<i', v)
        elif k == 0x40:
            n = r.randrange(1 << 57)
            b = struct.pack('<II', n & 0xffffffff, n >> 32)
            v = str(datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=n / 10))
        else:
            v = ''.join(r.choice('abc 가나다') for _ in range(r.choice([0, 1, 2, 10, 100])))
            b = struct.pack('<I', len(v) + 1) + (v + '\0').encode('utf-16le')
        parts.append((i, v, struct.pack('<I', k) + b))
    names = [(2 + j, 'n%d' % j) for j in range(r.choice([0, 1, 3]))]
    parts.append((0, names, struct.pack('<I', len(names)) + b''.join(struct.pack('<II', i, len(n) + 1) + n.encode() + b'\0' for i, n in names)))
    listed = list(parts)
    r.shuffle(listed)
    r.shuffle(parts)
    base = 8 + 8 * len(parts)
    offs, body, spans = {}, b'', [(0, 48 + base)]
    for i, v, b in parts:
        offs[i] = base + len(body)
        spans.append((48 + offs[i], 48 + offs[i] + len(b)))
        body += b + bytes(-len(b) % 4 if r.random() < .9 else 8)
    sec = struct.pack('<II', base + len(body), len(parts)) + b''.join(struct.pack('<II', i, offs[i]) for i, _, _ in listed) + body
    head = b'\xfe\xff\0\0' + bytes(4) + bytes(16) + struct.pack('<I', 1) + uuid.UUID('9fa2b660-1061-11d4-b4c6-006097c09d8c').bytes_le + struct.pack('<I', 48)
    return head + sec, {i: v for i, v, _ in parts}, spans


def summary(log, st, what):
    from hwp5.filestructure import HwpSummaryInfo
    data, want, spans = propset(st['synth'])
    n = int(st['at'] * (len(data) + 1)) if st['at'] >= 0 else max(0, max(e for _, e in spans) + int(st['at']))
    world = lib.World((0,), {'s': [{'kind': 'read', 'at': n}]} if st.get('fail') else None)
    lost = any(n < e for _, e in spans)
    stg = lib.SimStorage({'s': data if st.get('fail') else data[:n]}, world)
    if not st.get('fail'):
        lib.fault('sim-truncated-stream')
    log.count('torn' if lost else 'intact')
    try:
        ps = HwpSummaryInfo(stg['s'], (5, 0, 3, 0)).propertySetStream
        got = {}
        for p in ps.propertysets[0].properties:
            v = p.value
            got[p.id] = [(e.id, e.name) for e in v.entries] if p.id == 0 else str(v) if type(v).__name__ == 'FILETIME' else v
    except Exception as e:
        if not lost and not st.get('fail'):
            log.fail('spurious', '%s: %r' % (what, e))
        return
    if lost and not st.get('fail'):
        log.fail('clean-end', '%s: no error although the data ends inside a value' % what)
    elif got != want:
        log.fail('items', '%s: %r instead of %r' % (what, got, want))


def disk(log, st, req, what, shim, root):
    """the file itself, read through the operating system, which may fail"""
    from hwp5.xmlmodel import Hwp5File
    t = docs.tree(req['docs']['d.hwp'])
    want, torn = ref.parse_records(ref.plain_stream(t, st['path']))
    if torn is not None:
        return

    def f():
        f = Hwp5File(lib.doc_path(root))
        s = f.docinfo if st['path'] == 'DocInfo' else f.text.section(int(st['path'].rsplit('Section', 1)[1]))
        for r in s.records():
            yield r
    shim.activate(1)
    got, err = pull(f(), log, what, rec3)
    shim.activate(0)
    if got != want[:len(got)] or err is None and len(got) != len(want):
        check_items(log, what, got, err, want, None, err is not None)
    if err is not None and not shim.fired():
        log.fail('spurious', '%s: %r' % (what, err))
    if err is not None:
        log.count('disk failure reported')


def place(recs, c):
    """[record index fraction, offset within it] -> byte offset"""
    n = len(recs)
    if not n:
        return 0
    k = min(n - 1, int(c[0] * n))
    base = len(ref.encode_records(recs[:k]))
    size = len(ref.encode_record(*recs[k]))
    o = c[1]
    return base + (o if o >= 0 else max(0, size + o)) if abs(o) <= size else base + size // 2


def steps(rng, spec, n):
    t = docs.tree(spec)
    dist = docs.flags(t) & 4
    body = 'ViewText' if dist else 'BodyText'
    out = []
    for _ in range(n):
        m = rng.choice(['raw', 'raw', 'one', 'records', 'records', 'range', 'groups', 'models', 'models', 'json', 'xml', 'seek', 'summary'])
        if m == 'summary':
            out.append({'mode': m, 'synth': rng.randrange(100000), 'at': rng.choice([-rng.randrange(1, 9), round(rng.random(), 5), round(rng.random(), 5), .99999]),
                        'fail': rng.random() < .2})
            continue
        st = {'mode': m, 'splits': lib.splits(rng)}
        pos = [round(rng.choice([rng.random(), rng.random(), .999, 0]), 6), rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 30, -1, -2, -4]), round(rng.random(), 4)]
        k = rng.choice(['cut', 'cut', 'cut', 'fail', 'fail', 'none'])
        if k != 'none':
            st[k] = pos
        if m in ('raw', 'one'):
            st['synth'], st['n'] = rng.randrange(10000), rng.choice([0, 1, 2, 5, 12])
        else:
            st['path'] = rng.choice(['DocInfo', body + '/' + rng.choice(sorted(x for x in t[body] if x.startswith('Section')))])
            if dist:
                st['path'] = 'ViewText/Section0' if st['path'] != 'DocInfo' else 'DocInfo'
            st['plain'] = not dist and rng.random() < .7
            if dist and st['path'] != 'DocInfo':
                st.pop('cut', None)
                if not docs.flags(t) & 1 and k == 'cut':
                    st['dcut'] = rng.choice([rng.randrange(0, 260), 260 + rng.randrange(1000000), 260 + rng.randrange(1000000),
                                             -rng.randrange(1, 17), -rng.randrange(1, 17), -16 * rng.randrange(1, 9), -rng.randrange(1, 200)])
            a = rng.randrange(0, 30)
            st['range'] = [a, a + rng.randrange(1, 40)]
            st['fmt'] = rng.choice(['.records', '.models'])
            st['how'] = rng.choice(['formats', 'open', 'generate'])
            st['portion'] = rng.choice([50, 777, 8192])
            st['idx'] = rng.choice([0, 1, 5, 20, 60])
        out.append(st)
    return out


def main(eng):
    reqs = []
    for i in range(eng.n(3000, 40000)):
        rng = eng.rng('run', i)
        spec = docs.swarm(rng, True)
        if i % 9 == 1:
            spec = 'viewtext.hwp' if i % 2 else {'base': 'viewtext.hwp', 'ops': [['plaindist']]}
        reqs.append({'kind': 'lib', 'module': 'c05', 'fn': 'run', 'docs': {'d.hwp': spec},
                     'steps': steps(rng, spec, rng.choice([2, 3, 4]))})
    pairs = lib.sweep(eng, reqs)
    probe = []
    for i in range(eng.n(60, 400)):
        rng = eng.rng('disk', i)
        spec = docs.swarm(rng, True) if i % 5 else 'viewtext.hwp'
        t = docs.tree(spec)
        body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
        q = {'kind': 'lib', 'module': 'c05', 'fn': 'run', 'docs': {'d.hwp': spec}, 'want_log': 1,
             'steps': [{'mode': 'disk', 'path': rng.choice(['DocInfo', body + '/Section0'])}]}
        if i % 3 == 1:
            q['block'] = ['olefile']
        if i % 5 == 0 and i % 2:
            q['block'] = q.get('block', []) + ['cryptography']
        probe.append(q)
    pairs += lib.sweep(eng, probe)
    third = []
    for i, (q, rep) in enumerate(pairs[-len(probe):]):
        rng = eng.rng('diskfault', i)
        ops = [e for e in rep.get('log') or () if e[1] in ('read', 'openr', 'openw', 'write') and e[2] in ('in', 'tmp', 'proc')]
        for _ in range(min(len(ops), eng.n(10, 60))):
            third.append(dict(q, want_log=0, faults=[{
                'op': rng.choice(ops)[0], 'kind': rng.choice(['err', 'err', 'sticky', 'short']), 'arg': rng.choice([5, 5, 28])}]))
    for q in third:
        for f in q['faults']:
            if f['kind'] == 'short':
                f['arg'] = 100
    pairs += lib.sweep(eng, third)
    lib.sample(eng, pairs)
    eng.finish(rule='distinct (fault placement, delivery plan, I/O event log) digests',
               components='record, model and XML layers, decompression, decryption',
               stubs='the storage below the document (in-memory, scripted deliveries, failures and cuts)',
               assumptions=['a cut inside compressed bytes is stored damage that the format cannot frame; it is cut in the decoded data here'])
