"""Runs independent units of work in forked children with a hard time limit each."""
import os, pickle, signal, sys, time, select, tempfile
import build


def run(fn, items, limit, total=None, workers=8):
    """[(item, result or None, reason)]: result None when the child ran out of time or died"""
    build.scratch()
    sys.stdout.flush()
    t0 = time.time()
    todo = list(enumerate(items))
    live = {}
    out = [None] * len(items)
    while todo or live:
        while todo and len(live) < workers:
            i, it = todo.pop(0)
            f = os.path.join(build.scratch(), 'par%d.%d' % (os.getpid(), i))
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    r = fn(it)
                    with open(f + '.tmp', 'wb') as h:
                        pickle.dump(r, h)
                    os.rename(f + '.tmp', f)
                    code = 0
                except BaseException:
                    import traceback
                    with open(f + '.err', 'w') as h:
                        traceback.print_exc(file=h)
                finally:
                    os._exit(code)
            live[pid] = (i, f, time.time())
        time.sleep(0.02)
        now = time.time()
        for pid in list(live):
            i, f, t1 = live[pid]
            q, st = os.waitpid(pid, os.WNOHANG)
            if q == 0:
                if now - t1 > limit or total and now - t0 > total:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    out[i] = (items[i], None, 'time limit of %d s' % (now - t1))
                    del live[pid]
                continue
            del live[pid]
            if os.path.exists(f):
                with open(f, 'rb') as h:
                    out[i] = (items[i], pickle.load(h), '')
                os.unlink(f)
            else:
                err = open(f + '.err').read() if os.path.exists(f + '.err') else 'signal'
                out[i] = (items[i], None, 'internal error: ' + err.strip().splitlines()[-1][:300])
                if os.environ.get('VERIF_DEBUG'):
                    print(err)
    return out
