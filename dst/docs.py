"""Documents: the fixture corpus plus synthetic documents derived from it.
A document spec is JSON: "name.hwp" or {"base": name, "ops": [[op, ...], ...]}.
The spec alone determines the bytes."""
import json
import os
import random
import struct
import zlib

from . import cfb
from . import ref

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus')
NAMES = sorted(n for n in os.listdir(CORPUS) if n.endswith('.hwp'))
GOOD = [n for n in NAMES if not n.startswith('password')]
_cache = {}
_trees = {}


def raw(name):
    if name not in _cache:
        with open(os.path.join(CORPUS, name), 'rb') as f:
            _cache[name] = f.read()
    return _cache[name]


def copytree(t):
    return {k: copytree(v) if isinstance(v, dict) else v for k, v in t.items()}


def base_tree(name):
    if name not in _trees:
        _trees[name] = cfb.read(raw(name))
    return copytree(_trees[name])


def blob(size, seed, kind='mix'):
    r = random.Random('blob%s/%s/%s' % (size, seed, kind))
    if kind == 'zero':
        return bytes(size)
    if kind == 'rand':
        return r.randbytes(size)
    if kind == 'text':
        w = [('w%d ' % r.randrange(200)).encode() for _ in range(64)]
        out = bytearray()
        while len(out) < size:
            out += w[r.randrange(64)]
        return bytes(out[:size])
    out = bytearray()
    if kind == 'rep':           # expands evenly, about thirtyfold
        while len(out) < size:
            out += r.randbytes(16) * 40
        return bytes(out[:size])
    while len(out) < size:
        n = r.randrange(1, 5000)
        out += r.randbytes(n) if r.random() < .5 else bytes([r.randrange(256)]) * n
    return bytes(out[:size])


def flags(tree):
    return struct.unpack_from('<I', tree['FileHeader'], 36)[0]


def setflags(tree, f):
    h = bytearray(tree['FileHeader'])
    struct.pack_into('<I', h, 36, f)
    tree['FileHeader'] = bytes(h)


def getp(tree, path):
    for p in path.split('/'):
        tree = tree[p]
    return tree


def setp(tree, path, data):
    ps = path.split('/')
    for p in ps[:-1]:
        tree = tree.setdefault(p, {})
    tree[ps[-1]] = data


def compressed_paths(tree):
    for p in ref.walk(tree):
        a = p.split('/')
        if p == 'DocInfo' or (len(a) == 2 and a[0] in ('BinData', 'BodyText', 'ViewText', 'Scripts')):
            yield p


def put_plain(tree, path, plain, level=6):
    """store `plain` so that the document API must return it"""
    data = plain
    if flags(tree) & 1 and path in set(compressed_paths(tree)) | {path}:
        data = ref.deflate(plain, level)
    if flags(tree) & 4 and path.split('/')[0] in ('ViewText', 'Scripts'):
        data = ref.dist_encode(getp(tree, path)[:260], data)
    setp(tree, path, data)


def apply(tree, op):
    k = op[0]
    if k == 'uncompress':
        if flags(tree) & 1 and not flags(tree) & 6:
            for p in list(compressed_paths(tree)):
                setp(tree, p, ref.plain_stream(tree, p))
            setflags(tree, flags(tree) & ~1)
    elif k == 'plaindist':                   # encrypted, but not compressed
        if flags(tree) & 1 and flags(tree) & 4:
            ps = list(compressed_paths(tree))
            plain = {p: ref.plain_stream(tree, p) for p in ps}
            setflags(tree, flags(tree) & ~1)
            for p in ps:
                b = plain[p]
                if p.startswith('ViewText/') and len(b) % 16:    # whole blocks: a record fills the last one
                    n = -len(b) % 16
                    b += ref.encode_record(200, 0, bytes((n if n > 3 else n + 16) - 4))
                put_plain(tree, p, b)
    elif k == 'recompress':
        if flags(tree) & 1 and not flags(tree) & 6:
            for p in list(compressed_paths(tree)):
                setp(tree, p, ref.deflate(ref.plain_stream(tree, p), op[1]))
    elif k == 'addbin':                      # name size seed kind
        put_plain(tree, 'BinData/' + op[1], blob(op[2], op[3], op[4]))
    elif k == 'addraw':                      # path size seed kind
        setp(tree, op[1], blob(op[2], op[3], op[4]))
    elif k == 'rawname':                     # [segments], size, seed, kind: any name at all
        d = tree
        for p in op[1][:-1]:
            n = d.setdefault(p, {})
            if not isinstance(n, dict):
                n = d[p] = {}
            d = n
        d[op[1][-1]] = blob(op[2], op[3], op[4])
    elif k == 'mkstg':
        ps = op[1].split('/')
        d = tree
        for p in ps:
            d = d.setdefault(p, {})
    elif k == 'dupsection':                  # n: sections 0..n-1
        root = 'ViewText' if flags(tree) & 4 else 'BodyText'
        have = sorted(k for k, v in tree[root].items() if isinstance(v, bytes))
        for i in range(op[1]):
            nm = 'Section%d' % i
            if nm not in tree[root]:
                tree[root][nm] = tree[root][have[i % len(have)]]
    elif k == 'delete':
        ps = op[1].split('/')
        d = tree
        for p in ps[:-1]:
            d = d[p]
        d.pop(ps[-1], None)
    elif k == 'cut':                         # path, keep n plain bytes
        put_plain(tree, op[1], ref.plain_stream(tree, op[1])[:op[2]])
    elif k == 'rawcut':
        setp(tree, op[1], getp(tree, op[1])[:op[2]])
    elif k == 'flip':                        # path, [(offset, xor)...] on plain
        b = bytearray(ref.plain_stream(tree, op[1]))
        for o, x in op[2]:
            if b:
                b[o % len(b)] ^= x
        put_plain(tree, op[1], bytes(b))
    elif k == 'poke':                        # path, offset, hex
        b = bytearray(ref.plain_stream(tree, op[1]))
        v = bytes.fromhex(op[3])
        b[op[2]:op[2] + len(v)] = v
        put_plain(tree, op[1], bytes(b))
    elif k == 'rawflip':
        b = bytearray(getp(tree, op[1]))
        for o, x in op[2]:
            if b:
                b[o % len(b)] ^= x
        setp(tree, op[1], bytes(b))
    elif k == 'appendrec':                   # path, [[tag, level, size, seed, kind, ext]...]
        d = ref.plain_stream(tree, op[1])
        for t, lv, size, seed, kind, ext in op[2]:
            d += ref.encode_record(t, lv, blob(size, seed, kind), ext)
        put_plain(tree, op[1], d)
    elif k == 'append':                      # path, hex appended to plain
        put_plain(tree, op[1], ref.plain_stream(tree, op[1]) + bytes.fromhex(op[2]))
    elif k == 'repeat':                      # path, n: repeat the stream's records n times
        d = ref.plain_stream(tree, op[1])
        put_plain(tree, op[1], d * op[2])
    elif k == 'growtext':                    # path, index of PARA_TEXT, chars: long text record
        recs, torn = ref.parse_records(ref.plain_stream(tree, op[1]))
        idx = [i for i, r in enumerate(recs) if r[0] == ref.BEGIN + 51]
        if idx:
            i = idx[op[2] % len(idx)]
            t, lv, pl = recs[i]
            add = ''.join(chr(0xac00 + (op[2] * 7 + j) % 2000) for j in range(op[3])).encode('utf-16le')
            recs[i] = (t, lv, add + pl)
        put_plain(tree, op[1], ref.encode_records(recs))
    elif k == 'controls':                    # path, n, code: a text of n control characters
        recs = ref.parse_records(ref.plain_stream(tree, op[1]))[0]
        i = [j for j, r in enumerate(recs) if r[0] == 67][-1]
        c = struct.pack('<H', op[3])
        if op[3] in (10, 24, 30, 31):
            one = c
        else:
            one = c + b'\0' * 12 + c
        recs[i] = (67, recs[i][1], one * op[2] + b'\r\0')
        put_plain(tree, op[1], ref.encode_records(recs))
    elif k == 'shapes':                      # path, n: a paragraph of n characters, its shape changing at every one
        recs = ref.parse_records(ref.plain_stream(tree, op[1]))[0]
        i = [j for j, r in enumerate(recs) if r[0] == 67][-1]
        h = max(j for j in range(i) if recs[j][0] == 66)
        b = bytearray(recs[h][2])
        n = op[2]
        struct.pack_into('<I', b, 0, n + 1)
        struct.pack_into('<HHH', b, 12, n, 0, 0)
        recs[h] = (66, recs[h][1], bytes(b))
        lv = recs[i][1]
        recs[i] = (67, lv, ''.join(chr(0xac00 + j % 900) for j in range(n)).encode('utf-16le') + b'\r\0')
        e = i + 1
        while e < len(recs) and recs[e][0] in (68, 69, 70):
            e += 1
        recs[i + 1:e] = [(68, lv, b''.join(struct.pack('<II', j, j & 1) for j in range(n)))]
        put_plain(tree, op[1], ref.encode_records(recs))
    elif k == 'propset':                     # sets, properties, names, length of strings, aliased
        sets, props, names, ln, alias = op[1:]
        old = tree['\x05HwpSummaryInformation']
        head = old[:24] + struct.pack('<I', sets)
        fmtid = old[28:44]
        start = len(head) + 20 * sets
        ids = [2 + j for j in range(props)] + ([0] if names else [])
        body, offs = bytearray(), []
        base = 8 + 8 * len(ids)
        val = struct.pack('<II', 0x1f, ln) + ('x' * (ln - 1) + '\0').encode('utf-16le')
        for j in range(props):
            if not alias or not offs:
                offs.append(base + len(body))
                body += val
            else:
                offs.append(offs[0] + (2 * j if alias == 2 else 0))
        if names:
            offs.append(base + len(body))
            body += struct.pack('<I', names) + b''.join(struct.pack('<II', 0x10000 + j, 2) + b'n\0' for j in range(names))
        if alias == 2:
            body = b'\x1f\0' * (len(body) // 2)
        sec = struct.pack('<II', base + len(body), len(ids)) + b''.join(struct.pack('<II', a, b) for a, b in zip(ids, offs)) + bytes(body)
        tree['\x05HwpSummaryInformation'] = head + b''.join(fmtid + struct.pack('<I', start) for j in range(sets)) + sec
    elif k == 'rec':                         # path, [[index, what, args...]...]: damage to single records
        recs, torn = ref.parse_records(ref.plain_stream(tree, op[1]))
        for m in op[2]:
            damage(recs, m)
        put_plain(tree, op[1], ref.encode_records(recs))
    else:
        raise ValueError(op)


def damage(recs, m):
    i, what = m[0] % max(1, len(recs)), m[1]
    if not recs:
        return
    t, lv, pl = recs[i][:3]
    if what == 'poke':                       # offset (negative: from the end), hex
        b = bytearray(pl)
        v = bytes.fromhex(m[3])
        o = m[2] % len(b) if b else 0
        b[o:o + len(v)] = v[:len(b) - o]
        recs[i] = (t, lv, bytes(b))
    elif what == 'level':
        recs[i] = (t, m[2], pl)
    elif what == 'tag':
        recs[i] = (m[2], lv, pl)
    elif what == 'cut':
        recs[i] = (t, lv, pl[:m[2] % (len(pl) + 1)])
    elif what == 'grow':
        recs[i] = (t, lv, pl + blob(m[2], m[3], 'mix'))
    elif what == 'fill':                     # offset, byte, size: overwrite (and lengthen) from offset on
        o = min(len(pl), m[2])
        recs[i] = (t, lv, pl[:o] + bytes([m[3]]) * max(len(pl) - o, m[4]))
    elif what == 'del':
        del recs[i]
    elif what == 'dup':
        recs[i:i + 1] = [recs[i]] * m[2]
    elif what == 'move':
        r = recs.pop(i)
        recs.insert(m[2] % (len(recs) + 1), r)
    elif what == 'junk':
        recs[i] = (t, lv, blob(len(pl), m[2], 'rand'))
    elif what == 'chain':                    # n copies of records i.., each one level deeper
        part = recs[i:i + m[3]]
        out = []
        for d in range(m[2]):
            for a, b, c in part:
                out.append((a, min(1023, b + d * m[4]), c))
        recs[i:i + m[3]] = out


def tree(spec):
    if isinstance(spec, str):
        return base_tree(spec)
    t = base_tree(spec['base'])
    for op in spec.get('ops', []):
        apply(t, op)
    return t


_built = {}


def build(spec):
    if isinstance(spec, str):
        return raw(spec)
    key = json.dumps(spec, sort_keys=True)
    if key not in _built:
        if len(_built) > 200:
            _built.clear()
        b = cfb.build(tree(spec))
        for op in spec.get('file', []):
            b = bytearray(b)
            if op[0] == 'truncate':
                b = b[:op[1]]
            elif op[0] == 'flip':
                for o, x in op[1]:
                    b[o % len(b)] ^= x
            b = bytes(b)
        _built[key] = b
    return _built[key]


def forget():
    _built.clear()


def sections(spec):
    t = tree(spec)
    root = 'ViewText' if flags(t) & 4 else 'BodyText'
    return [root + '/' + s for s in sorted(t.get(root, {})) if s.startswith('Section')]


def swarm(rng, small=False):
    """a random document spec for workloads that need variety"""
    base = rng.choice(GOOD)
    ops = []
    if rng.random() < .25:
        return base
    if rng.random() < .3:
        ops.append(['uncompress'])
    elif rng.random() < .2:
        ops.append(['recompress', rng.choice([0, 1, 9])])
    if rng.random() < .3 and base != 'viewtext.hwp':
        ops.append(['dupsection', rng.choice([2, 3, 11, 12])if not small else rng.choice([2, 3])])
    if rng.random() < .4:
        for i in range(rng.randrange(1, 4)):
            ops.append(['addbin', 'BIN%04X.%s' % (rng.randrange(0x100, 0x200), rng.choice(['png', 'jpg', 'OLE', 'bin'])),
                        rng.choice([0, 1, 63, 64, 4095, 4096, 4097, 8191, 8192, 8193, 8196, 8197, 70000, 200000]) if not small else rng.choice([0, 1, 64, 4096, 9000]),
                        rng.randrange(1 << 30), rng.choice(['mix', 'rand', 'zero', 'text'])])
    if rng.random() < .2:
        s = 'ViewText/Section0' if base == 'viewtext.hwp' else 'BodyText/Section0'
        ops.append(['growtext', s, rng.randrange(8), rng.choice([100, 2040, 2050, 5000])])
    if rng.random() < .1:           # storages where there are none usually
        p = rng.choice(['Empty', 'Scripts/None', 'DocOptions/None', 'BinData/None', 'XMLTemplate', 'BodyText/None', 'ViewText/None'])
        x = rng.random()
        if x < .2:              # names that are the same once they are file names
            for p in rng.choice([['_05HwpSummaryInformation'], ['BinData/_05x', 'BinData/\x05x'], ['BinData/\x05x_', 'BinData/\x05x', 'BinData/_05x']]):
                ops.append(['addraw', p, rng.choice([0, 1, 100, 5000]), rng.randrange(1 << 30), 'mix'])
        elif x < .5:
            ops.append(['addraw', p + '/s', rng.choice([0, 1, 100, 5000]), rng.randrange(1 << 30), 'mix'])
        else:
            ops.append(['mkstg', p])
    return {'base': base, 'ops': ops}


def size(spec):
    """stored and decoded bytes of the document"""
    t = tree(spec)
    n = 0
    for p in ref.walk(t):
        n += len(getp(t, p))
        try:
            n += len(ref.plain_stream(t, p))
        except Exception:           # damaged head of an encrypted stream, damaged header
            pass
    return n
