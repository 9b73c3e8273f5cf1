"""A minimal OLE2 compound file writer (harness side, shares no code with the
system under test).  ``build(tree)`` takes nested dicts: dict = storage,
bytes = stream."""
import struct

import olefile

SEC, MINI, CUTOFF = 512, 64, 4096
FREE, EOC, FATSECT, DIFSECT = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC
NOSTREAM = 0xFFFFFFFF


def _key(name):
    return (len(name.encode('utf-16le')), name.upper())


class _Ent:
    def __init__(self, name, typ, data=b''):
        self.name, self.typ, self.data = name, typ, data
        self.left = self.right = self.child = NOSTREAM
        self.start, self.size = EOC, len(data)


def build(tree, root_clsid=b'\0' * 16):
    ents = [_Ent('Root Entry', 5)]

    def link(ids):                      # balanced tree over sorted siblings
        if not ids:
            return NOSTREAM
        m = len(ids) // 2
        ents[ids[m]].left = link(ids[:m])
        ents[ids[m]].right = link(ids[m + 1:])
        return ids[m]

    def add(parent, d):
        ids = []
        for name in sorted(d, key=_key):
            v = d[name]
            e = _Ent(name, 1) if isinstance(v, dict) else _Ent(name, 2, bytes(v))
            ents.append(e)
            i = len(ents) - 1
            ids.append(i)
            if isinstance(v, dict):
                add(i, v)
        ents[parent].child = link(ids)

    add(0, tree)
    mini = bytearray()
    minifat = []
    sectors = []
    fat = []

    def alloc(data):
        if not data:
            return EOC
        n = (len(data) + SEC - 1) // SEC
        first = len(sectors)
        for i in range(n):
            sectors.append(data[i * SEC:(i + 1) * SEC].ljust(SEC, b'\0'))
            fat.append(first + i + 1 if i + 1 < n else EOC)
        return first

    for e in ents[1:]:
        if e.typ != 2:
            e.start = 0
            continue
        if not e.data:
            e.start = EOC
        elif len(e.data) < CUTOFF:
            n = (len(e.data) + MINI - 1) // MINI
            first = len(minifat)
            for i in range(n):
                minifat.append(first + i + 1 if i + 1 < n else EOC)
            mini += e.data.ljust(n * MINI, b'\0')
            e.start = first
        else:
            e.start = alloc(e.data)
    ents[0].start = alloc(bytes(mini))
    ents[0].size = len(mini)
    mf = b''.join(struct.pack('<I', x) for x in minifat)
    mf = mf.ljust((len(mf) + SEC - 1) // SEC * SEC, b'\xff')
    minifat_start = alloc(mf)
    d = bytearray()
    for e in ents:
        nm = e.name.encode('utf-16le')[:62] + b'\0\0'
        d += nm.ljust(64, b'\0') + struct.pack('<HBB', len(nm), e.typ, 1)
        d += struct.pack('<III', e.left, e.right, e.child)
        d += (root_clsid if e.typ == 5 else b'\0' * 16) + struct.pack('<I', 0) + b'\0' * 16
        d += struct.pack('<IQ', e.start, e.size if e.typ != 1 else 0)
    while len(d) % SEC:
        d += b'\0' * 64 + struct.pack('<HBB', 0, 0, 0) + struct.pack('<III', NOSTREAM, NOSTREAM, NOSTREAM) + b'\0' * 48
    dir_start = alloc(bytes(d))
    # FAT sectors (and DIFAT when more than 109)
    nfat, ndif = 0, 0
    while True:
        total = len(sectors) + nfat + ndif
        need = (total + 127) // 128
        ndif_need = max(0, (need - 109 + 126) // 127)
        if need == nfat and ndif_need == ndif:
            break
        nfat, ndif = need, ndif_need
    fat_first = len(sectors)
    fat += [FATSECT] * nfat + [DIFSECT] * ndif
    fat += [FREE] * (nfat * 128 - len(fat))
    fatb = struct.pack('<%dI' % len(fat), *fat)
    for i in range(nfat):
        sectors.append(fatb[i * SEC:(i + 1) * SEC])
    fatlist = [fat_first + i for i in range(nfat)]
    rest = fatlist[109:]
    dif_first = len(sectors) if ndif else EOC
    for i in range(ndif):
        part = rest[i * 127:(i + 1) * 127]
        part += [FREE] * (127 - len(part))
        nxt = len(sectors) + 1 if i + 1 < ndif else EOC
        sectors.append(struct.pack('<128I', *(part + [nxt])))
    hdr = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 16
    hdr += struct.pack('<HHHHH', 0x3e, 3, 0xfffe, 9, 6) + b'\0' * 6
    hdr += struct.pack('<IIIIIIIII', 0, nfat, dir_start, 0, CUTOFF, minifat_start,
                       len(mf) // SEC, dif_first, ndif)
    hd = fatlist[:109] + [FREE] * (109 - min(109, nfat))
    hdr += struct.pack('<109I', *hd)
    return hdr + b''.join(sectors)


def read(path_or_bytes):
    """CFB file -> nested dict (independent of hwp5; uses olefile)."""
    import io

    f = io.BytesIO(path_or_bytes) if isinstance(path_or_bytes, bytes) else path_or_bytes
    ole = olefile.OleFileIO(f)
    tree = {}
    try:
        for p in ole.listdir(streams=True, storages=True):
            d = tree
            for s in p[:-1]:
                d = d.setdefault(s, {})
            if ole.get_type('/'.join(p)) == 2:
                d[p[-1]] = ole.openstream('/'.join(p)).read()
            else:
                d.setdefault(p[-1], {})
    finally:
        ole.close()
    return tree
