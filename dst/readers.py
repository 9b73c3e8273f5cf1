"""A catalog of everything one can read from an open document, each as a
function (document, argument) -> iterator over comparable items."""
import io
import os
import sys
import weakref

from . import docs
from . import lib
from . import ref


def _chunks(f, szs):
    i = 0
    try:
        while True:
            n = szs[i % len(szs)]
            i += 1
            d = f.read(n)
            if not d and n != 0:
                return
            if d:
                yield d
    finally:
        f.close()


def _item(stg, path):
    for p in path.split('/'):
        stg = stg[p]
    return stg


def stream(f, path, szs):
    for c in _chunks(_item(f, path).open(), szs):
        yield c


def virtual(f, path, szs):
    from hwp5.storage import ExtraItemStorage
    for c in _chunks(_item(ExtraItemStorage(f), path).open(), szs):
        yield c


def _model(m):
    return lib.freeze({k: v for k, v in m.items() if k not in ('binevents', 'unparsed', 'parent', 'sister')})


_held = weakref.WeakKeyDictionary()


def _rs(f, path):
    """the stream object; with a trailing '!' the one that other readers of
    the document were given too"""
    if path.endswith('!'):
        d = _held.setdefault(f, {})
        if path not in d:
            d[path] = _rs(f, path[:-1])
        return d[path]
    return f.docinfo if path == 'DocInfo' else f.text.section(int(path.rsplit('Section', 1)[1]))


def _rec(r):
    return (r['seqno'], r['tagid'], r['level'], bytes(r['payload']))


def records(f, path):
    for r in _rs(f, path).records():
        yield _rec(r)


def groups(f, path):
    for g in _rs(f, path).records_treegrouped():
        yield tuple(_rec(r) for r in g)


def lazygroups(f, path):
    for g in _rs(f, path).records_treegrouped(group_as_list=False):
        for r in g:
            yield _rec(r)


def models(f, path):
    for m in _rs(f, path).models():
        yield _model(m)


def json(f, path, fmt, how):
    s = _rs(f, path)
    j = s.records_json() if fmt == 'records' else s.models_json()
    if how == 'open':
        for c in _chunks(j.open(), [500, 3000]):
            yield c
    elif how == 'generate':
        for c in j.generate():
            yield c.encode('utf-8')
    else:
        b = io.StringIO()
        j.dump(b)
        yield b.getvalue().encode('utf-8')


def tree(f, path, n, what):
    s = _rs(f, path)
    if what == 'records':
        for r in s.records_treegroup(n) or ():
            yield _rec(r)
    elif what == 'records2':
        for r in s.records(treegroup=n) or ():
            yield _rec(r)
    elif what == 'range':
        for r in s.records(range=(n, n + 5)):
            yield _rec(r)
    elif what == 'models':
        for i, g in enumerate(s.models_treegrouped()):
            for m in g:
                yield i, _model(m)
            if i == n:
                break
    else:
        for m in s.models(treegroup=n):
            yield _model(m)


def binevents(f, path):
    for ev, x in _rs(f, path).parse_model_events():
        lo = x.get('leftover')
        yield (str(ev), getattr(x.get('type'), '__name__', None), x.get('name'), lib.freeze(x['value']) if 'value' in x else None,
               lo and (lo['offset'], lo['bytes']))


def charshape(f, n):
    from hwp5.binmodel import DocInfo
    d = DocInfo(f.docinfo.wrapped, f.docinfo.version)
    m = d.get_charshape(n)
    yield m and _model(m)
    for lang in ('ko', 'en', 'user'):
        try:
            yield _model(d.charshape_lang_facename(n, lang))
        except (TypeError, IndexError) as e:
            yield type(e).__name__


def dist(f, name, what):
    """the parts of an encrypted section"""
    from hwp5.filestructure import Hwp5DistDocStorage
    x = f
    while 'wrapped' in x.__dict__:
        x = x.wrapped
    s = Hwp5DistDocStorage(x['ViewText'])[name]
    r = getattr(s, what)()
    yield _rec(r) if what == 'head_record' else r if isinstance(r, (bytes, str)) else r.read()


DIST = ['head_record', 'head_record_stream', 'head', 'head_stream', 'head_sha1', 'head_key', 'tail', 'tail_decrypted', 'tail_stream']


def one(f, path, n):
    r = _rs(f, path).record(n)
    yield _rec(r) if r else None
    m = _rs(f, path).model(n)
    yield _model(m) if m else None


def xml(f, path, embed=False, encoding=None):
    x = f if path == '' else f.summaryinfo if path == 'summary' else f.text if path == 'text' else _rs(f, path)
    kw = {'embedbin': True} if embed else {}
    enc = {'xml_encoding': encoding} if encoding else {}
    for c in x.xmlevents(**kw).bytechunks(**enc):
        yield c


def xmldump(f, embed=False):
    b = io.BytesIO()
    f.xmlevents(embedbin=embed).dump(b)
    yield b.getvalue()


def events(f, path):
    for ev, x in _rs(f, path).modelevents():
        yield (ev is not None and str(ev), lib.freeze(x[0]), lib.freeze(x[1]))


def info(f):
    h = f.header
    yield lib.freeze(h.version)
    yield str(h.flags) if not hasattr(h.flags, 'compressed') else bool(h.flags.compressed)
    g = f.fileheader.open_text()
    yield g.read()
    g.close()
    yield f.preview_text.get_utf8() if 'PrvText' in f else None
    yield f.preview_text.text if 'PrvText' in f else None


def summary(f):
    s = f.summaryinfo
    for n in ('title', 'subject', 'author', 'keywords', 'comments', 'lastSavedBy', 'revisionNumber', 'lastPrintedTime', 'createdTime',
              'lastSavedTime', 'numberOfPages', 'dateString', 'numberOfParagraphs'):
        try:
            yield n, str(getattr(s, n))
        except (KeyError, AttributeError) as e:
            yield n, type(e).__name__
    g = s.open_text()
    yield g.read()
    g.close()


def getter(f, which):
    if which == 'summarytext':
        g = f.summaryinfo.open_text()
        yield g.read()
        g.close()
    elif which == 'summaryset':
        yield len(f.summaryinfo.getPropertySetStream().propertysets)
    elif which == 'header':
        yield lib.freeze(f.fileheader.to_dict())
    elif which == 'headervalue':
        yield lib.freeze(f.fileheader.value)
    elif which == 'version':
        yield lib.freeze(f.fileheader.get_version())
    elif which == 'flags':
        yield int(f.fileheader.get_flags())
    elif which == 'preview':
        yield f.preview_text.get_text()
    elif which == 'previewutf8':
        yield f.preview_text.get_utf8()
    elif which == 'title':
        yield str(f.summaryinfo.title)


GETTERS = ['summarytext', 'summaryset', 'header', 'headervalue', 'version', 'flags', 'preview', 'previewutf8', 'title']


def fonts(f):
    from hwp5.binmodel import DocInfo
    d = DocInfo(f.docinfo.wrapped, f.docinfo.version)
    yield _model(d.idmappings)
    for k, v in sorted(d.facenames_by_lang.items()):
        yield k, tuple(_model(m) for m in v)
    for m in d.charshapes:
        yield _model(m)


def sections(f):
    yield tuple(f.text.section_indexes())
    for s in f.text.sections:
        yield sum(1 for r in s.records())


def names(f):
    from hwp5.storage import ExtraItemStorage
    from hwp5.storage import iter_storage_leafs
    yield tuple(sorted(iter_storage_leafs(ExtraItemStorage(f))))


def items(f, path, how):
    """the names in a storage, one after the other, from an object which other
    readers of the document use too"""
    from hwp5.storage import ExtraItemStorage
    from hwp5.storage import is_storage
    from hwp5.storage import iter_storage_leafs
    d = _held.setdefault(f, {})
    stg = f
    for n in path.split('/') if path else ():
        if ('stg', n) not in d:
            d['stg', n] = stg[n]
        stg = d['stg', n]
    if how == 'in':
        for n in ('FileHeader', 'DocInfo', 'Section0', 'BinData', 'none'):
            yield n, n in stg
    elif how == 'leafs':
        for n in iter_storage_leafs(stg):
            yield n
    elif how == 'extra':
        for n in ExtraItemStorage(stg):
            yield n
    elif how == 'kinds':
        for n in stg:
            yield n, is_storage(stg[n])
    else:
        for n in stg:
            yield n


def unpack(f, root):
    from hwp5.storage import unpack
    d = os.path.join(root, 'cwd', 'u')
    n = 0
    while os.path.exists(d + str(n)):
        n += 1
    d += str(n)
    os.mkdir(d)
    unpack(f, d)
    out = []
    for p, ds, fs in os.walk(d):
        ds.sort()
        for x in sorted(fs):
            with open(os.path.join(p, x), 'rb') as g:
                out.append((os.path.relpath(os.path.join(p, x), d), g.read()))
    yield tuple(out)


CONV = ['txt', 'css', 'xhtml', 'content', 'styles', 'single']


def transformer(what, cache=None):
    if cache is not None and what in cache:
        return cache[what]
    if what == 'txt':
        from hwp5.hwp5txt import TextTransform
        t = TextTransform()
    elif what in ('css', 'xhtml', 'dir'):
        from hwp5.hwp5html import HTMLTransform
        t = HTMLTransform()
    else:
        from hwp5.hwp5odt import ODTTransform
        t = ODTTransform()
    if cache is not None:
        cache[what] = t
    return t


def convert(f, what, root, cache=None):
    t = transformer(what, cache)
    b = io.BytesIO()
    if sys.modules.get('lxml.etree') is None and what not in ('odt', 'dir'):    # xsltproc writes to a file only
        n = 0
        while os.path.exists(os.path.join(root, 'cwd', 'c%d' % n)):
            n += 1
        b = open(os.path.join(root, 'cwd', 'c%d' % n), 'wb+')
    if what == 'txt':
        t.transform_hwp5_to_text(f, b)
    elif what == 'css':
        t.transform_hwp5_to_css(f, b)
    elif what == 'xhtml':
        t.transform_hwp5_to_xhtml(f, b)
    elif what == 'content':
        t.transform_hwp5_to_content(f, b)
    elif what == 'styles':
        t.transform_hwp5_to_styles(f, b)
    elif what == 'single':
        t.transform_hwp5_to_single_document(f, b)
    elif what == 'odt':
        import zipfile
        from hwp5.hwp5odt import open_odtpkg
        n = 0
        while os.path.exists(os.path.join(root, 'cwd', 'o%d.odt' % n)):
            n += 1
        p = os.path.join(root, 'cwd', 'o%d.odt' % n)
        with open_odtpkg(p) as pkg:
            t.transform_hwp5_to_package(f, pkg)
        with zipfile.ZipFile(p) as z:
            # (the manifest lists the binary data in the order of the directory)
            yield tuple(sorted((i, z.read(i) if i != 'META-INF/manifest.xml' else sorted(z.read(i).split(b'<'))) for i in z.namelist()))
        return
    elif what == 'dir':
        n = 0
        while os.path.exists(os.path.join(root, 'cwd', 'h%d' % n)):
            n += 1
        d = os.path.join(root, 'cwd', 'h%d' % n)
        os.mkdir(d)
        t.transform_hwp5_to_dir(f, d)
        out = []
        for p, ds, fs in os.walk(d):
            for x in sorted(fs):
                with open(os.path.join(p, x), 'rb') as g:
                    out.append((os.path.relpath(os.path.join(p, x), d), g.read()))
        yield tuple(sorted(out))
        return
    b.seek(0)
    yield b.read()
    b.close()


def catalog(rng, tree, root='', conv=True):
    """one random reader as [name, args...] (json)"""
    body = 'ViewText' if docs.flags(tree) & 4 else 'BodyText'
    secs = sorted(x for x in tree.get(body, {}) if x.startswith('Section'))
    path = rng.choice(['DocInfo', body + '/' + rng.choice(secs)] if secs else ['DocInfo'])
    leaves = [p for p in ref.walk(tree)]
    k = rng.choice(['stream'] * 3 + ['virtual'] * 3 + ['records', 'groups', 'lazygroups', 'models', 'models', 'one', 'xml', 'xml', 'xmldump',
                   'events', 'info', 'summary', 'json', 'json', 'tree', 'tree', 'binevents', 'charshape', 'getter', 'getter', 'fonts', 'sections', 'names', 'items', 'items', 'unpack'] + (['convert'] * 3 if conv else []))
    if body == 'ViewText' and k in ('stream', 'tree') and secs and rng.random() < .4:
        return ['dist', rng.choice(secs), rng.choice(DIST)]
    if rng.random() < .4:
        held = path + '!'
    else:
        held = path
    if k == 'stream':
        return [k, rng.choice(leaves), _sizes(rng)]
    if k == 'json':
        return [k, held, rng.choice(['records', 'models']), rng.choice(['open', 'generate', 'dump'])]
    if k == 'tree':
        return [k, held, rng.choice([0, 1, 2, 5]), rng.choice(['records', 'records2', 'range', 'models', 'models2'])]
    if k == 'binevents':
        return [k, held]
    if k == 'charshape':
        return [k, rng.choice([0, 1, 3, 20])]
    if k == 'virtual':
        v = ['DocInfo.records', 'DocInfo.models', 'FileHeader.txt', body + '.xml', path + '.records', path + '.models', path + '.xml']
        if 'PrvText' in tree:
            v.append('PrvText.utf8')
        if '\x05HwpSummaryInformation' in tree:
            v.append('\x05HwpSummaryInformation.txt')
        return [k, rng.choice([x for x in v if x != 'DocInfo.xml']), _sizes(rng)]
    if k in ('records', 'groups', 'lazygroups', 'models', 'events'):
        return [k, held]
    if k == 'one':
        return [k, held, rng.choice([0, 1, 3, 10, 40])]
    if k == 'xml':
        p = rng.choice(['', 'summary', 'text', held])
        return [k, p, p == '' and rng.random() < .4]
    if k == 'xmldump':
        return [k, rng.random() < .4]
    if k == 'unpack':
        return [k]
    if k == 'items':
        return [k, rng.choice(['', ''] + [x for x in sorted(tree) if isinstance(tree[x], dict)]), rng.choice(['', '', 'in', 'leafs', 'extra', 'kinds'])]
    if k == 'getter':
        return [k, rng.choice(GETTERS)]
    if k == 'convert':
        return [k, rng.choice(CONV + ['odt', 'dir'])]
    return [k]


def _sizes(rng):
    return [rng.choice([1, 7, 100, 512, 1000, 4096, 8196, 100000]) for _ in range(rng.randrange(1, 4))]


def make(f, op, root, cache=None):
    k, a = op[0], list(op[1:])
    if k == 'stream' or k == 'virtual':
        p, szs = a
        # keep one-byte reads of large streams affordable
        return globals()[k](f, p, [s if s >= 64 else s + 63 for s in szs])
    if k == 'unpack':
        return unpack(f, root)
    if k == 'convert':
        return convert(f, a[0], root, cache)
    return globals()[k](f, *a)


def needs(op, tree):
    """does the operation apply to the document"""
    return True


def same(a, b):
    """streams compare by content, whatever the portions"""
    if a and isinstance(a[0], bytes):
        return b''.join(a) == b''.join(b)
    return a == b


def part(a, full):
    """is a the beginning of full"""
    if a and isinstance(a[0], bytes):
        x = b''.join(a)
        return b''.join(full)[:len(x)] == x
    return a == full[:len(a)]


def run_alone(f, op, root, cache=None):
    """-> (items, error or None)"""
    out = []
    try:
        for x in make(f, op, root, cache):
            out.append(x)
    except Exception as e:
        return out, e
    return out, None


def describe(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            x, y = a[i], b[i]
            if isinstance(x, (bytes, str)) and isinstance(y, type(x)):
                return 'item %d: %s' % (i, lib.diff(x, y))
            return 'item %d is %s instead of %s' % (i, repr(x)[:150], repr(y)[:150])
    return '%d items instead of %d' % (len(a), len(b))
