"""C04: decoded streams read the same however the reads are split."""
import io

from .. import docs
from .. import lib
from .. import ref
from ..lib import judge  # noqa  (replay)

EXTS = {'PrvText': '.utf8', 'FileHeader': '.txt', 'DocInfo': '.records'}


def item(stg, path):
    for p in path.split('/'):
        stg = stg[p]
    return stg


def source(spec, kind, arg):
    """(encoded bytes, plain bytes) for the direct decoders"""
    if kind == 'blob':
        plain = docs.blob(*arg[:3])
        return ref.deflate(plain, arg[3]), plain
    t = docs.tree(spec)
    plain = ref.plain_stream(t, arg)
    return ref.deflate(plain), plain


def run(shim, root, req):
    log = lib.Log()
    spec = req['docs']['d.hwp']
    tree = docs.tree(spec)
    path = lib.doc_path(root)
    cache = {}
    for st in req['steps']:
        kind, arg, szs = st['t'], st['a'], st.get('sizes')
        what = '%s %s sizes %s splits %s' % (kind, arg, szs, st.get('splits'))
        log.say(what)
        log.count(kind)
        with lib.guard(log, what):
            one(shim, log, st, kind, arg, szs, what, spec, tree, path, cache)
        shim.activate(1)
    return log.res()


def one(shim, log, st, kind, arg, szs, what, spec, tree, path, cache):
    from hwp5.xmlmodel import Hwp5File
    from hwp5.storage import ExtraItemStorage
    from hwp5.storage.ole import OleStorage
    if True:
        if kind in ('doc', 'ole', 'v', 'dist-tail', 'dist-head'):
            if kind == 'ole':
                mk = OleStorage
            elif kind == 'v':
                mk = lambda p: ExtraItemStorage(Hwp5File(p))        # noqa: E731
            else:
                mk = Hwp5File
            shim.activate(0)
            if kind == 'doc':
                want = ref.plain_stream(tree, arg)
            elif kind == 'ole':
                want = docs.getp(tree, arg)
            else:
                if (kind, arg) not in cache:
                    s = mk(path)
                    f = opener(item(s, arg), kind)
                    cache[kind, arg] = f.read()
                    f.close()
                    s.close()
                want = cache[kind, arg]
            shim.activate(1)
            s = mk(path)
            f = opener(item(s, arg), kind)
            got = lib.drain(f, szs, log, what, text=isinstance(want, str))
            f.close()
            s.close()
        elif kind in ('zsr', 'codec-reader', 'gen', 'decompress', 'inc-dec', 'inc-enc', 'gr', 'gtr', 'dist', 'recoder'):
            enc, want = source(spec, *arg)
            src = lib.SimSource(enc, st['splits'])
            if kind == 'zsr':
                from hwp5.zlib_raw_codec import StreamReader
                got = lib.drain(StreamReader(src), szs, log, what)
            elif kind == 'codec-reader':
                import codecs
                import hwp5.zlib_raw_codec as z
                ci = z._codecinfo if hasattr(z, '_codecinfo') else None
                if ci is None:
                    return
                got = lib.drain(ci.streamreader(src), szs, log, what)
            elif kind == 'gen':
                from hwp5.compressed import decompress_experimental
                got = lib.drain(decompress_experimental(src, st.get('buf', 4096)), szs, log, what)
            elif kind == 'decompress':
                from hwp5.compressed import decompress
                got = lib.drain(decompress(src), szs, log, what)
            elif kind == 'inc-dec':
                from hwp5.zlib_raw_codec import IncrementalDecoder
                d = IncrementalDecoder()
                if st.get('reset'):
                    d.decode(enc[:len(enc) // 2], False)
                    d.reset()
                got = chunked(d.decode, enc, szs)
            elif kind == 'inc-enc':
                from hwp5.zlib_raw_codec import IncrementalEncoder
                e = IncrementalEncoder()
                if st.get('reset'):
                    e.encode(want[:len(want) // 2], False)
                    e.reset()
                got = chunked(e.encode, want, szs)
                import zlib
                o = zlib.decompressobj(-15)
                try:
                    got = o.decompress(got) + o.flush()
                except zlib.error as x:
                    log.fail('encoder', '%s: not a deflate stream: %s' % (what, x))
                    return
            elif kind in ('gr', 'gtr'):
                from hwp5.utils import GeneratorReader, GeneratorTextReader
                data = want if kind == 'gr' else want.decode('latin-1')
                want = data

                def gen(d=data, sp=st['splits']):
                    i = n = 0
                    while i < len(d):
                        k = sp[n % len(sp)] or 1000
                        n += 1
                        if n % 3 == 0 and st.get('empties'):
                            yield d[:0]
                        yield d[i:i + k]
                        i += k
                got = lib.drain((GeneratorReader if kind == 'gr' else GeneratorTextReader)(gen()), szs, log, what,
                                text=kind == 'gtr')
            elif kind == 'dist':
                from hwp5.distdoc import decode
                t = docs.base_tree('viewtext.hwp')
                raw = ref.dist_encode(t['ViewText']['Section0'][:260], enc)
                want = enc + b'\0' * (-len(enc) % 16)
                got = lib.drain(decode(lib.SimSource(raw, st['splits'])), szs, log, what)
            else:
                return
        else:
            raise ValueError(kind)
        if got != want:
            log.fail('content', '%s: %s' % (what, lib.diff(got, want)))
        log.say(len(got))


def opener(it, kind):
    if kind == 'dist-tail':
        return it.tail_stream() if hasattr(it, 'tail_stream') else it.wrapped.tail_stream()
    if kind == 'dist-head':
        return it.head_record_stream() if hasattr(it, 'head_record_stream') else it.wrapped.head_record_stream()
    return it.open()


def chunked(fn, data, szs):
    out, i, n = [], 0, 0
    while i < len(data):
        k = szs[n % len(szs)]
        n += 1
        if k is None or k < 0:
            k = len(data)
        if k == 0 and n > 40:
            k = 1
        out.append(fn(data[i:i + k], False))
        i += k
    out.append(fn(b'', True))
    return b''.join(out)


def vnames(tree):
    body = 'ViewText' if docs.flags(tree) & 4 else 'BodyText'
    out = ['DocInfo.records', 'DocInfo.models', 'PrvText.utf8', 'FileHeader.txt', body + '.xml', 'DocInfo.xml']
    for s in sorted(x for x in tree.get(body, {}) if x.startswith('Section')):
        out += [body + '/' + s + x for x in ('.records', '.models', '.xml')]
    out.append('\x05HwpSummaryInformation.txt')
    return out


def main(eng):
    reqs = []
    for i in range(eng.n(800, 9000)):
        rng = eng.rng('run', i)
        spec = docs.swarm(rng, True)
        if i % 6 == 1:
            spec = {'base': 'viewtext.hwp', 'ops': []}
        tree = docs.tree(spec)
        dist = docs.flags(tree) & 4
        leaves = list(ref.walk(tree))
        heavy = ['DocInfo'] + [p for p in leaves if p.startswith(('BodyText', 'ViewText', 'BinData'))]
        steps = []
        for _ in range(rng.choice([2, 4, 6])):
            st = {'sizes': lib.sizes(rng), 'splits': lib.splits(rng)}
            k = rng.choice(['doc', 'doc', 'doc', 'ole', 'v', 'v', 'zsr', 'zsr', 'codec-reader', 'gen', 'gen', 'decompress', 'inc-dec',
                            'inc-enc', 'gr', 'gtr', 'dist'] + (['dist-tail', 'dist-head'] if dist else []))
            st['t'] = k
            if k in ('doc', 'ole'):
                st['a'] = rng.choice(heavy if rng.random() < .7 else leaves)
                if k == 'doc' and rng.random() < .1 and st['a'] == 'PrvText':
                    st['a'] = 'DocInfo'
            elif k == 'v':
                names = [n for n in vnames(tree) if n.rsplit('.', 1)[0].split('/')[0] in tree or '\x05' not in n]
                st['a'] = rng.choice([n for n in names if '\x05' not in n and n != 'DocInfo.xml'])
                if st['a'].startswith('PrvText') and 'PrvText' not in tree:
                    st['a'] = 'FileHeader.txt'
            elif k in ('dist-tail', 'dist-head'):
                st['a'] = 'ViewText/' + rng.choice(sorted(x for x in tree['ViewText'] if x.startswith('Section')))
            else:
                if rng.random() < .5:
                    st['a'] = ['blob', [rng.choice([0, 1, 2, 100, 4095, 4096, 8196, 8197, 20000, 70000]), rng.randrange(999),
                                        rng.choice(['mix', 'rand', 'zero', 'text']), rng.choice([0, 1, 6, 9])]]
                else:
                    st['a'] = ['stream', rng.choice(heavy)]
                st['reset'] = rng.random() < .4
                st['empties'] = rng.random() < .5
                st['buf'] = rng.choice([1, 7, 100, 4096, 8192])
                if k != 'inc-enc' and rng.random() < .12:
                    # much more than a decoder holds at once
                    st['a'] = ['blob', [rng.choice([300000, 1000000, 2500000]), rng.randrange(99), rng.choice(['rep', 'rep', 'rep', 'zero', 'mix']), 9]]
                    st['sizes'] = rng.choice([[1000], [4096], [8196], [65536], [100000, 1], [1, 1 << 20], [10, -1]])
                    st['splits'] = rng.choice([[0], [0], [8196], [4096], [1000], [511, 512]])
                    st['buf'] = rng.choice([4096, 8192])
            steps.append(st)
        q = {'kind': 'lib', 'module': 'c04', 'fn': 'run', 'docs': {'d.hwp': spec}, 'steps': steps}
        if i % 5 == 3:
            q['block'] = ['olefile']
        if dist and i % 4 == 1:
            q['block'] = q.get('block', []) + ['cryptography']
        reqs.append(q)
    first = lib.sweep(eng, [dict(q, want_log=1) for q in reqs])
    # the operating system delivers short
    second = []
    for i, (q, rep) in enumerate(first):
        rng = eng.rng('short', i)
        ops = [e for e in rep.get('log') or () if e[1] == 'read' and e[2] in ('in', 'tmp')]
        if not ops:
            continue
        for _ in range(eng.n(2, 5)):
            fs = {rng.choice(ops)[0]: 0 for _ in range(rng.randrange(1, 6))}
            second.append(dict(q, want_log=0, faults=[
                {'op': o, 'kind': 'short', 'arg': rng.choice([1, 3, 100, 511, 512, 4000])}
                for o in sorted(fs)]))
    second = second[:eng.n(1200, 30000)]
    pairs = first + lib.sweep(eng, second)
    lib.sample(eng, pairs)
    eng.finish(rule='distinct digests of (read plan, delivery plan, I/O event log)',
               components='hwp5 stream decoders, olefile and libgsf backends, cryptography and openssl backends',
               stubs='the byte source behind the directly driven decoders, process scheduling, clock, randomness',
               assumptions=['the source ends only at the end of its data: a short delivery is never empty'])
