"""C17: whatever is stored, XML output is well formed and JSON listings are valid."""
import io
import json
import os
import zipfile

from .. import cliwork
from .. import docs
from .. import lib
from .. import readers
from .. import ref
from . import c10

# code units that XML or JSON cannot hold as they are, in UTF-16
UNITS = [0, 1, 2, 3, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0xe, 0x18, 0x1b, 0x1d, 0x1e, 0x1f, 0x20, 0x22, 0x26, 0x27, 0x2d, 0x3c, 0x3e, 0x5d, 0x7f, 0x80, 0x85, 0x9f,
         0xa0, 0xad, 0x2028, 0x2029, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xf53a, 0xfdd0, 0xfeff, 0xfffe, 0xffff, 0xac00]


def wellformed(data):
    """None or what is wrong with the document"""
    et = ref.etree
    try:
        et.fromstring(data, et.XMLParser(huge_tree=True, resolve_entities=False, no_network=True))
    except et.XMLSyntaxError as e:
        return str(e)[:200]


def strict(b):
    """JSON as RFC 8259 has it: without NaN and Infinity"""
    def no(x):
        raise ValueError('%s is not JSON' % x)
    return json.loads(b.decode('utf-8'), parse_constant=no)


def check(log, what, kind, items):
    if kind == 'json':
        try:
            strict(b''.join(items))
        except ValueError as e:
            log.fail('json', '%s: %s' % (what, str(e)[:200]))
        return
    for name, data in items:
        bad = wellformed(data)
        if bad:
            log.fail('xml', '%s: %s: %s' % (what, name, bad))


def run(shim, root, req):
    from hwp5.xmlmodel import Hwp5File
    log = lib.Log()
    for st in req['steps']:
        for d in req.get('damage', ()):
            lib.fault('stored-' + d)
        f = None
        try:
            f = Hwp5File(lib.doc_path(root))
            got, err = readers.run_alone(f, st, root)
        except Exception as e:
            got, err = [], e
        finally:
            if f is not None:
                f.close()
        log.say(st, type(err).__name__, lib.digest(got) if hasattr(lib, 'digest') else len(got))
        log.count('error' if err else 'result')
        if err:
            continue
        what = repr(st)
        if st[0] == 'json' or st[0] == 'virtual' and st[1].endswith(('.records', '.models')):
            check(log, what, 'json', got)
        elif st[0] == 'convert' and st[1] in ('odt', 'dir'):
            check(log, what, 'xml', [(n, d if isinstance(d, bytes) else b'<'.join(d)) for n, d in got[0] if n.endswith(('.xml', '.xhtml', '.rdf')) and not isinstance(d, list)])
        else:
            check(log, what, 'xml', [('output', b''.join(got))])
    return log.res()


def post(root, req):
    """what is wrong with the outputs of a command, if anything"""
    out = []

    def one(name, b):
        if name.endswith('.json'):
            try:
                strict(b)
            except ValueError as e:
                out.append([name, 'json', str(e)[:200]])
        elif name.endswith('.odt'):
            try:
                with zipfile.ZipFile(io.BytesIO(b)) as z:
                    for n in z.namelist():
                        if n.endswith(('.xml', '.rdf')):
                            one(name + '/' + n, z.read(n))
            except zipfile.BadZipFile as e:
                out.append([name, 'zip', str(e)])
        elif name.endswith(('.xml', '.xhtml', '.fodt', '.rdf')):
            bad = wellformed(b)
            if bad:
                out.append([name, 'xml', bad])
    for d, ds, fs in os.walk(root + '/cwd'):
        for n in sorted(fs):
            with open(os.path.join(d, n), 'rb') as f:
                one(os.path.relpath(os.path.join(d, n), root + '/cwd').replace('.records', '.records.json').replace('.models', '.models.json'), f.read())
    if req.get('stdout_is'):
        with open(root + '/io/stdout', 'rb') as f:
            one('stdout.' + req['stdout_is'], f.read())
    return out


def cli_judge(eng, req, rep):
    if rep['exit'] != 0:
        return []
    return [('%s:%s' % (k, req['wname']), '%r: %s: %s' % (req['argv'], n, m)) for n, k, m in rep.get('post') or ()]


STDOUT = {'html-html': 'xml', 'odt-content': 'xml', 'odt-doc-noembed': 'xml', 'xml': 'xml', 'xml-embed': 'xml', 'xml-flat': 'xml', 'records': 'json',
          'records-group': 'json', 'models': 'json', 'models-tree': 'json', 'models-seqno': 'json'}
FILES = ['html-dir', 'html-html-file', 'odt-pkg', 'odt-pkg-embed', 'odt-styles', 'odt-doc', 'xml-file', 'xml-raw', 'html-dir-noxml', 'odt-xsltproc', 'unpack-v']


def judge(eng, req, rep):
    if req['kind'] == 'cli':
        return cli_judge(eng, req, rep)
    return [(c + ':' + m.split(',')[0].strip("['").split("'")[0], m) for c, m in lib.judge(eng, req, rep)]


DOUBLES = ['ffffffffffffffff', '000000000000f07f', '000000000000f0ff', '000000000000f87f', '0100000000000000', 'ffffffffffffef7f']


MARKUP = [']]>', ']]>', ']]>]', '-->', '<!--', '--', '&amp;', '&#0;', '&x;', '<![CDATA[', '?>', '<?x', '</p>', '<a b="', '"', "'", '\\u0000', '\\', '","x":']


def chars(rng, n):
    if rng.random() < .1:
        return [rng.randrange(n), 'poke', rng.randrange(0, 260) & ~1, rng.choice(DOUBLES) * rng.choice([1, 1, 6])]
    if rng.random() < .2:
        return [rng.randrange(n), 'poke', 2 * rng.choice([0, 1, 2, 5, 9, rng.randrange(60)]), rng.choice(MARKUP).encode('utf-16le').hex()]
    units = [rng.choice(UNITS) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
    return [rng.randrange(n), 'poke', rng.choice([0, 2, 4, 6, 8, 9, 10, 20, -2, -4, rng.randrange(400) & ~1, rng.randrange(60)]),
            b''.join(u.to_bytes(2, 'little') for u in units).hex()]


TEXTUAL = (19, 21, 22, 24, 26, 67, 67, 67, 67, 71, 71, 76, 76, 87, 88)


def spec(rng):
    if rng.random() < .35:
        return c10.spec(rng), 'field'
    base = rng.choice(docs.GOOD)
    t = docs.base_tree(base)
    body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
    ops = []
    for p in rng.choice([['DocInfo'], [body + '/Section0'], [body + '/Section0'], ['DocInfo', body + '/Section0'], ['summary']]):
        if p == 'summary':
            s = '\x05HwpSummaryInformation'
            for _ in range(rng.choice([1, 3, 10])):
                if s in t:
                    ops.append(['poke', s, rng.randrange(60, len(t[s])), b''.join(rng.choice(UNITS).to_bytes(2, 'little') for _ in range(2)).hex()])
            continue
        recs = ref.parse_records(ref.plain_stream(t, p))[0]
        tags = {}
        for i, r in enumerate(recs):
            tags.setdefault(r[0], []).append(i)
        ms = []
        for _ in range(rng.choice([1, 2, 4, 12])):
            m = chars(rng, len(recs))
            w = [x for x in TEXTUAL if x in tags]
            if w and rng.random() < .8:
                m[0] = rng.choice(tags[rng.choice(w)])
            ms.append(m)
        ops.append(['rec', p, ms])
    return {'base': base, 'ops': ops}, 'chars'


def main(eng):
    reqs = []
    for i in range(eng.n(2500, 40000)):
        rng = eng.rng('run', i)
        sp, what = spec(rng)
        t = docs.base_tree(sp['base'])
        body = 'ViewText' if docs.flags(t) & 4 else 'BodyText'
        sec = body + '/Section0'
        enc = rng.choice(['utf-8', 'utf-16', 'utf-16le', 'utf-16be', 'euc-kr', 'cp949', 'us-ascii', 'iso-8859-1'])
        cat = [['xml', '', False, enc], ['xml', sec, False, enc], ['xml', '', False], ['xml', '', False], ['xml', '', True], ['xml', 'text', False], ['xml', sec, False], ['xml', 'summary', False], ['xmldump', False],
               ['virtual', body + '.xml', [4096]], ['convert', 'xhtml'], ['convert', 'content'], ['convert', 'styles'], ['convert', 'single'],
               ['convert', 'odt'], ['convert', 'dir'], ['json', 'DocInfo', 'models', 'open'], ['json', sec, 'models', 'generate'],
               ['json', sec, 'records', 'dump'], ['json', 'DocInfo', 'records', 'open'], ['virtual', sec + '.models', [1000]]]
        reqs.append({'kind': 'lib', 'module': 'c17', 'fn': 'run', 'docs': {'d.hwp': sp}, 'steps': rng.sample(cat, rng.choice([2, 3])), 'cpu': 60,
                     'damage': [what], **({'block': ['lxml']} if i % 12 == 5 else {})})
    for i in range(eng.n(500, 8000)):
        rng = eng.rng('cli', i)
        sp, what = spec(rng)
        W = dict(cliwork.workloads(rng, sp, docs.base_tree(sp['base'])))
        nm = rng.choice(sorted(STDOUT) + FILES)
        reqs.append(dict(W[nm], wname=nm, damage=[what], post=['c17', 'post'], stdout_is=STDOUT.get(nm)))
    reps = eng.run(reqs)
    for q, rep in zip(reqs, reps):
        if q['kind'] == 'cli':
            eng.probes['command exit 0' if rep['exit'] == 0 else 'command exit!=0'] += 1
            eng.fired['stored-' + q['damage'][0]] += 1
        for c, m in judge(eng, q, rep):
            eng.violation(c, m, q, judge, lib.shrink)
    lib.sample(eng, list(zip(reqs, reps)))
    eng.finish(rule='distinct digests of (damaged document, operations, outcome)',
               components='record, model and XML layers, style sheets, libxslt, ODT package writer',
               stubs='process scheduling, clock, randomness')
