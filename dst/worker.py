"""Fork server.  One request per line on one pipe (JSON), one reply per line on
the other.  Each request is one simulated execution in a forked child."""
import fcntl
import json
import os
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    base = sys.argv[1]
    root = os.path.join(base, 'r')
    # the pipes move out of the way: low descriptor numbers belong to the runs
    # (via even higher ones: they may already have one of these numbers)
    fds = [int(a) for a in sys.argv[2:4]]
    high = [fcntl.fcntl(fd, fcntl.F_DUPFD, 300) for fd in fds]
    for fd in fds:
        os.close(fd)
    for fd, to in zip(high, (100, 101)):
        os.dup2(fd, to)
        os.close(fd)
    repo = os.environ.get('DST_REPO', '/repo')
    sys.path.insert(0, os.path.join(repo, 'src'))
    from dst import shimctl
    shim = shimctl.Shim(os.environ['LD_PRELOAD'])
    import tempfile, zipfile, shutil, subprocess, logging, codecs, gettext  # noqa
    import dst.simproc  # noqa  (before the system under test binds Popen)
    from dst import child
    child.preload()
    inp = os.fdopen(100, 'r', encoding='utf-8')
    out = os.fdopen(101, 'w', encoding='utf-8')
    out.write('"ready"\n')
    out.flush()
    for line in inp:
        req = json.loads(line)
        rfile = os.path.join(base, 'result')
        try:
            os.unlink(rfile)
        except OSError:
            pass
        try:
            prep = child.prepare(shim, root, req)
        except Exception as e:
            import traceback
            rep = {'harness_error': 'prepare: ' + traceback.format_exc()[-1500:]}
            out.write(json.dumps(rep) + '\n')
            out.flush()
            continue
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            inp.close()
            out.close()
            # falls through to a real interpreter shutdown
            child.run(shim, root, req, prep, rfile)
            return
        limit = float(req.get('wall', 90))
        t0 = time.monotonic()
        status = None
        pfd = os.pidfd_open(pid)
        try:
            po = select.poll()
            po.register(pfd, select.POLLIN)
            if not po.poll(limit * 1000):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            else:
                status = os.waitpid(pid, 0)[1]
        finally:
            os.close(pfd)
        try:
            if status is None:
                rep = child.timed_out(shim, root, req)
            else:
                rep = child.collect(shim, root, req, prep, rfile, status)
            rep['wall'] = time.monotonic() - t0
        except Exception:
            import traceback
            rep = {'harness_error': 'collect: ' + traceback.format_exc()[-1500:]}
        out.write(json.dumps(rep) + '\n')
        out.flush()


main()
