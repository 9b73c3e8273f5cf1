"""Reference models: small independent re-implementations used as oracles.
Nothing here imports the system under test."""
import struct
import sys
import zlib

try:
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
except ImportError:
    Cipher = None

BEGIN = 0x10


class Torn(Exception):
    """The record stream ends inside a record."""


def parse_records(data):
    """-> (records, torn).  records: [(tagid, level, payload)], complete ones
    only; torn is None or the offset of the record the data ends inside."""
    out, i, n = [], 0, len(data)
    while i < n:
        start = i
        if i + 4 > n:
            return out, start
        h, = struct.unpack_from('<I', data, i)
        i += 4
        size = h >> 20
        if size == 0xfff:
            if i + 4 > n:
                return out, start
            size, = struct.unpack_from('<I', data, i)
            i += 4
        if i + size > n:
            return out, start
        out.append((h & 0x3ff, (h >> 10) & 0x3ff, data[i:i + size]))
        i += size
    return out, None


def encode_record(tagid, level, payload, force_ext=False):
    n = len(payload)
    if n >= 0xfff or force_ext:
        return struct.pack('<II', (0xfff << 20) | (level << 10) | tagid, n) + payload
    return struct.pack('<I', (n << 20) | (level << 10) | tagid) + payload


def encode_records(recs):
    return b''.join(encode_record(*r) for r in recs)


def deflate(data, level=6, strategy=0):
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 8, strategy)
    return c.compress(data) + c.flush()


def inflate(data):
    return zlib.decompress(data, -15)


def _dist_head(payload):
    d = bytearray(payload)
    seed = struct.unpack_from('<I', d)[0]
    s, n, key = seed, 0, 0

    def rand():
        nonlocal s
        s = (s * 214013 + 2531011) & 0xffffffff
        return (s >> 16) & 0x7fff
    for i in range(256):
        if n == 0:
            key = rand() & 0xff
            n = (rand() & 0xf) + 1
        if i >= 4:
            d[i] ^= key
        n -= 1
    o = 4 + (seed & 0xf)
    return bytes(d[o:o + 80])


def dist_key(raw):
    recs, _ = parse_records(raw[:260])
    assert recs[0][0] == BEGIN + 12
    return _dist_head(recs[0][2])[:16]


# modules hidden from the system under test, for the oracle's own use
hidden = {}


def _aes(key, data, enc):
    now = {k: sys.modules.get(k) for k in hidden}
    sys.modules.update(hidden)
    try:
        c = Cipher(algorithms.AES(key), modes.ECB())
        x = c.encryptor() if enc else c.decryptor()
        return x.update(data) + x.finalize()
    finally:
        for k, m in now.items():
            if m is None and k != 'cryptography':
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


def dist_decode(raw):
    return _aes(dist_key(raw), raw[260:], False)


def dist_encode(head260, plain):
    plain = plain + b'\0' * (-len(plain) % 16)
    return head260 + _aes(dist_key(head260), plain, True)


def plain_stream(tree, path):
    """What the document API must return for the stream at `path`."""
    flags = struct.unpack_from('<I', tree['FileHeader'], 36)[0]
    compressed, password, dist = flags & 1, flags & 2, flags & 4
    parts = path.split('/')
    d = tree
    for p in parts:
        d = d[p]
    if password:
        return d
    if dist and parts[0] in ('ViewText', 'Scripts') and len(parts) == 2:
        d = dist_decode(d)
    if compressed and (parts[0] == 'DocInfo' and len(parts) == 1 or
                       parts[0] in ('BinData', 'BodyText', 'ViewText', 'Scripts') and len(parts) == 2):
        try:
            do = zlib.decompressobj(-15)
            r = do.decompress(d) + do.flush()
            if not do.eof:
                return d
            d = r
        except zlib.error:
            pass            # stored uncompressed: returned as is
    return d


def walk(tree, base=''):
    for k in sorted(tree):
        if isinstance(tree[k], dict):
            for x in walk(tree[k], base + k + '/'):
                yield x
        else:
            yield base + k
