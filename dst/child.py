"""One simulated execution: set-up in the fork server, the run itself in the
forked child, and collection of what it left behind."""
import builtins
import hashlib
import importlib
import io
import json
import os
import re
import resource
import shutil
import signal
import stat
import sys

from . import docs
from . import ref
from . import simproc

REPO = os.environ.get('DST_REPO', '/repo')
MAXOPS = 60000
HERE = os.path.dirname(os.path.abspath(__file__))

COMMANDS = {
    'hwp5txt': 'hwp5.hwp5txt', 'hwp5html': 'hwp5.hwp5html', 'hwp5odt': 'hwp5.hwp5odt',
    'hwp5proc': 'hwp5.hwp5proc', 'hwp5view': 'hwp5.hwp5view', 'hwp5spec': 'hwp5.binspec',
}


def preload():
    """import what every run needs; hwp5 comes from the working tree"""
    import lxml.etree
    ref.etree = lxml.etree      # for the oracles, also when it is hidden from the system under test
    import olefile, zlib, json, argparse, zipfile, base64, pdb  # noqa
    import urllib.request, urllib.parse  # noqa
    import xml.sax.saxutils, xml.sax.expatreader, xml.etree.ElementTree  # noqa
    import encodings.utf_16_le, encodings.idna, encodings.latin_1, encodings.unicode_escape, encodings.ascii  # noqa
    try:
        import pygments, pygments.lexers, pygments.formatters  # noqa
        from pygments.lexers import get_lexer_for_mimetype
        get_lexer_for_mimetype('application/xml'), get_lexer_for_mimetype('text/css')
        from pygments.formatters import TerminalFormatter  # noqa
    except ImportError:
        pass
    try:
        from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes  # noqa
        from cryptography.hazmat.backends import default_backend
        default_backend()
    except Exception:
        pass
    if os.environ.get('DST_FRESH'):
        return
    for m in ('hwp5.hwp5txt', 'hwp5.hwp5view', 'hwp5.hwp5html', 'hwp5.hwp5odt', 'hwp5.hwp5proc', 'hwp5.binmodel',
              'hwp5.xmlmodel', 'hwp5.recordstream', 'hwp5.proc.version', 'hwp5.proc.header',
              'hwp5.proc.summaryinfo', 'hwp5.proc.ls', 'hwp5.proc.cat', 'hwp5.proc.unpack',
              'hwp5.proc.records', 'hwp5.proc.models', 'hwp5.proc.find', 'hwp5.proc.xml',
              'hwp5.proc.rawunz', 'hwp5.proc.diststream', 'hwp5.distdoc', 'hwp5.summaryinfo',
              'hwp5.msoleprops', 'hwp5.storage.fs'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def wipe(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def prepare(shim, root, req):
    if os.path.isdir(root):
        for d in os.listdir(root):
            wipe(os.path.join(root, d))
    for d in ('in', req.get('cwdname', 'cwd'), 'tmp', 'io'):
        os.makedirs(os.path.join(root, d))
    for name, spec in (req.get('docs') or {}).items():
        data = docs.build(spec)
        os.makedirs(os.path.dirname(os.path.join(root, 'in', name)), exist_ok=True)
        with open(os.path.join(root, 'in', name), 'wb') as f:
            f.write(data)
    for rel, hexd in (req.get('files') or {}).items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(bytes.fromhex(hexd))
    for rel, n in (req.get('stale') or {}).items():      # what is there from earlier
        p = os.path.join(root, 'cwd', rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(stale(n))
    si = req.get('stdin')
    data = b''
    if si:
        if 'hex' in si:
            data = bytes.fromhex(si['hex'])
        elif 'stream' in si:        # raw stored bytes of a stream of a document
            data = docs.getp(docs.tree(si['doc']), si['stream'])
            if si.get('plain'):
                data = ref.plain_stream(docs.tree(si['doc']), si['stream'])
            if 'cut' in si:
                data = data[:si['cut']]
    with open(os.path.join(root, 'io', 'stdin'), 'wb') as f:
        f.write(data)
    prefs = [('in', root + '/in'), ('out', root + '/' + req.get('cwdname', 'cwd')), ('tmp', root + '/tmp'),
             ('res', os.path.join(REPO, 'src', 'hwp5')), ('other', root + '/io')]
    shim.configure(root, prefs, req.get('faults') or (), clock=req.get('clock', 1700000000.0),
                   step=req.get('step', 1000), seed=req.get('rseed', 1), tty=req.get('tty', 0),
                   dirseed=req.get('dirseed', 1))
    ins = {}
    ins = tree_fp(root + '/in')
    return {'inputs': ins}


def stale(n):
    return (b'earlier\n' * (n // 8 + 1))[:n]


def _fp(p):
    with open(p, 'rb') as f:
        b = f.read()
    return [len(b), hashlib.sha1(b).hexdigest()]


def limits(mem=3 << 30, cpu=40):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def block(names):
    for n in names:
        for k in list(sys.modules):
            if k == n or k.startswith(n + '.'):
                if n == 'cryptography':
                    ref.hidden[k] = sys.modules[k]
                del sys.modules[k]
        sys.modules[n] = None


class Broken:
    """a component that is installed but cannot be imported"""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            raise getattr(builtins, self.names[name])('simulated: %s is broken' % name)


def break_(names):
    for n in names:
        for k in list(sys.modules):
            if k == n or k.startswith(n + '.'):
                if n == 'cryptography':
                    ref.hidden[k] = sys.modules[k]
                del sys.modules[k]
    sys.meta_path.insert(0, Broken(names))


def environ(root, req):
    keep = {k: os.environ[k] for k in ('LD_PRELOAD', 'PATH') if k in os.environ}
    os.environ.clear()
    os.environ.update(keep)
    os.environ.update({'HOME': root + '/' + req.get('cwdname', 'cwd'), 'LANG': 'C.UTF-8', 'TMPDIR': root + '/tmp',
                       'SIM_SHIM': keep.get('LD_PRELOAD', ''), 'SIM_ROOT': root, 'TZ': 'UTC'})
    for k, v in (req.get('env') or {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    import time
    time.tzset()
    import tempfile
    tempfile.tempdir = None
    tempfile._name_sequence = None


def stdio(root, shim):
    sys.stdout.flush()
    sys.stderr.flush()
    for fd, name, fl in ((0, 'stdin', os.O_RDONLY), (1, 'stdout', os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                         (2, 'stderr', os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)):
        f = os.open(os.path.join(root, 'io', name), fl, 0o644)
        if f != fd:
            os.dup2(f, fd)
            os.close(f)


def pystdio(tty, enc=None):
    sys.stdin = sys.__stdin__ = open(0, 'r', encoding='utf-8', closefd=False)
    sys.stdout = sys.__stdout__ = open(1, 'w', encoding=enc or 'utf-8', closefd=False,
                                       buffering=1 if tty & 2 else -1)
    sys.stderr = sys.__stderr__ = open(2, 'w', encoding='utf-8', errors='backslashreplace',
                                       closefd=False, buffering=1)


def setup(shim, root, req):
    limits(req.get('mem', 3 << 30), req.get('cpu', 40))
    environ(root, req)
    os.chdir(os.path.join(root, req.get('cwd') or req.get('cwdname', 'cwd')))
    simproc.install(shim, req.get('proc') or (), req.get('noexe') or (), req.get('exe'))
    for k, v in (req.get('alias') or {}).items():
        sys.modules[k] = importlib.import_module(v)
    if req.get('broken'):
        break_(req['broken'])
    if req.get('block'):
        block(req['block'])
    signal.signal(signal.SIGINT, signal.default_int_handler)
    stdio(root, shim)
    shim.attach()
    for fd, n in ((0, 'stdin'), (1, 'stdout'), (2, 'stderr')):
        shim.track(fd, n, n)


def run(shim, root, req, prep, rfile):
    if req['kind'] == 'cli':
        setup(shim, root, req)
        pystdio(req.get('tty', 0), req.get('enc'))
        argv = list(req['argv'])
        sys.argv = [argv[0]] + argv[1:]
        mod = importlib.import_module(COMMANDS[argv[0]])
        shim.activate(1)
        # what a console-script wrapper does; interpreter shutdown follows for real
        sys.exit(mod.main())
    else:
        setup(shim, root, req)
        mod = importlib.import_module('dst.checks.' + req['module'])
        fn = getattr(mod, req['fn'])
        code = 0
        try:
            res = fn(shim, root, req)
        except BaseException as e:
            import traceback
            shim.activate(0)
            mine = [f.filename.startswith(os.path.join(REPO, 'src')) for f in traceback.extract_tb(e.__traceback__)
                    if f.filename.startswith((os.path.join(REPO, 'src'), HERE))]
            if mine and isinstance(e, Exception) and (mine[-1] or any(mine) and isinstance(e, (OSError, KeyError))):
                # the library fails where the scenario has no place for it
                res = {'bad': [['exception', 'an exception out of the library: %s' % traceback.format_exc()[-500:]]],
                       'stat': {}, 'faults': {}, 'h': ''}
            else:
                res = {'harness_error': traceback.format_exc()[-3000:]}
        shim.activate(0)
        with open(rfile, 'w') as f:
            json.dump(res, f)
        os._exit(code)


def tree_fp(base):
    out = {}
    for d, ds, fs in os.walk(base):
        ds.sort()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), base) + '/'] = None
        for x in fs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.path.relpath(p, base)] = ['link', os.readlink(p)]
            elif stat.S_ISREG(os.lstat(p).st_mode):
                out[os.path.relpath(p, base)] = _fp(p)
    return out


def canon_log(log):
    """log lines with process-random temp names made canonical"""
    names = {}
    out = []
    for op, kind, cls, fault, fd, err, arg, ret, path in log:
        if path.startswith('tmp/'):
            path = names.setdefault(path, 'tmp/#%d' % len(names))
        out.append('%d %s %s %s fd%d e%d %d %d %s' % (op, kind, cls, fault, fd, err, arg, ret, path))
    return out


def compare(root, ref, old):
    """-> ([[name, size, what]] of outputs that are not a prefix of the
    reference, number of proper non-empty prefixes); an earlier file may also
    still be there as it was"""
    bad, partial = [], 0
    todo = [('stdout', root + '/io/stdout', ref + '/stdout')]
    for d, ds, fs in os.walk(root + '/cwd'):
        ds.sort()
        for x in sorted(fs):
            p = os.path.join(d, x)
            r = os.path.relpath(p, root + '/cwd')
            todo.append((r, p, os.path.join(ref, 'cwd', r)))
    for name, p, q in todo:
        with open(p, 'rb') as f:
            a = f.read()
        if name in old and a == stale(old[name]):
            continue
        if not os.path.isfile(q):
            if re.match(r'(tmp)?[a-z0-9_]{8}$', name):     # the temporary directory was unusable
                continue
            bad.append([name, len(a), 'no such output in the full run'])
            continue
        with open(q, 'rb') as f:
            b = f.read()
        if b[:len(a)] != a:
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            bad.append([name, len(a), 'at byte %d of %d' % (k, len(b))])
        elif 0 < len(a) < len(b):
            partial += 1
    return bad, partial


def timed_out(shim, root, req):
    """neither processor time nor operations: blocked for good"""
    return {'exit': -99, 'hang': True, 'timeout': True, 'nops': shim.ctl.nops, 'digest': 'timeout', 'fired': shim.fired(),
            'clock_ns': shim.ctl.clock_ns, 'crashed': False, 'denied': [], 'marks': [], 'log': [], 'lines': [],
            'spawned': [], 'unreaped': 0, 'stdout': [0, ''], 'out': {}, 'tmp': [], 'root': [], 'inputs_same': True,
            'stderr': '', 'post': None}


def collect(shim, root, req, prep, rfile, status):
    rep = {}
    if os.WIFEXITED(status):
        rep['exit'] = os.WEXITSTATUS(status)
    else:
        rep['exit'] = -os.WTERMSIG(status)
    log = shim.log()
    c = shim.ctl
    lines = canon_log(log)
    rep['nops'] = c.nops
    rep['digest'] = hashlib.sha1('\n'.join(lines).encode('utf-8', 'replace')).hexdigest()
    rep['fired'] = shim.fired()
    hit = {l[0]: l for l in log if l[3] != '-'}
    for f in rep['fired']:
        if f['op'] in hit:
            f['on'] = '%s %s %s' % (hit[f['op']][1], hit[f['op']][2], hit[f['op']][8][:60])
    rep['clock_ns'] = c.clock_ns
    rep['overflow'] = c.logoverflow
    rep['crashed'] = bool(c.crashed)
    rep['denied'] = [l[8] for l in log if l[1] == 'denied']
    marks = [l[8] for l in log if l[1] == 'mark']
    rep['marks'] = marks[:50]
    if req.get('want_log'):
        rep['log'] = [list(x) for x in log]
    if req.get('want_lines'):
        rep['lines'] = lines
    if req['kind'] == 'lib':
        if os.path.exists(rfile):
            with open(rfile) as f:
                rep['res'] = json.load(f)
            if isinstance(rep['res'], dict) and 'harness_error' in rep['res']:
                rep['harness_error'] = rep['res']['harness_error']
        rep['hang'] = rep['exit'] in (-24, 98) or any(m.startswith('hang:') for m in marks)
        rep['tmp'] = sorted(os.listdir(root + '/tmp'))
        with open(root + '/io/stderr', 'rb') as f:
            rep['stderr'] = f.read()[-1500:].decode('utf-8', 'replace')
        return rep
    if req.get('cwdname', 'cwd') != 'cwd':
        os.rename(os.path.join(root, req['cwdname']), root + '/cwd')
    spawned = [m[6:] for m in marks if m.startswith('spawn:')]
    failed = [m for m in marks if m.startswith('spawn-failed:')]
    reaped = [m for m in marks if m.startswith('reap:')]
    spawn_err = sum(1 for l in log if l[1] == 'mark' and l[8].startswith('spawn:') and l[7] == -1)
    rep['spawned'] = spawned
    rep['unreaped'] = len(spawned) - len(failed) - spawn_err - len(reaped)
    rep['hang'] = rep['exit'] == -24 or any(m.startswith('hang:') for m in marks) or c.nops > MAXOPS
    rep['stdout'] = _fp(root + '/io/stdout')
    with open(root + '/io/stderr', 'rb') as f:
        rep['stderr'] = f.read()[-1500:].decode('utf-8', 'replace')
    rep['out'] = tree_fp(root + '/cwd')
    rep['tmp'] = sorted(os.listdir(root + '/tmp'))
    rep['root'] = sorted(os.listdir(root))
    ins = {}
    ins = tree_fp(root + '/in')
    rep['inputs_same'] = all(ins.get(k) == v for k, v in prep['inputs'].items())
    rep['in_new'] = sorted(set(ins) - set(prep['inputs']))
    rep['io_new'] = sorted(set(os.listdir(root + '/io')) - {'stdin', 'stdout', 'stderr'})
    if req.get('post'):
        mod = importlib.import_module('dst.checks.' + req['post'][0])
        rep['post'] = getattr(mod, req['post'][1])(root, req)
    if req.get('savedir') and not os.path.isdir(req['savedir']):
        t = req['savedir'] + '.%d' % os.getpid()
        shutil.copytree(root + '/cwd', t + '/cwd', symlinks=True)
        shutil.copy(root + '/io/stdout', t + '/stdout')
        try:
            os.rename(t, req['savedir'])
        except OSError:
            shutil.rmtree(t)
    if req.get('cmpdir'):
        rep['cmp'], rep['cmp_partial'] = compare(root, req['cmpdir'], req.get('stale') or {})
    if req.get('want_stdout'):
        with open(root + '/io/stdout', 'rb') as f:
            rep['stdout_text'] = f.read()[:200000].decode('utf-8', 'replace')
    return rep
