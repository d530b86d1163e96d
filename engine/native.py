"""The harnesses compiled with g++ (AddressSanitizer) against /repo's current sources, run on concrete values."""
import os, subprocess, fcntl, zlib, concurrent.futures as cf
import build, terms as T

_exe = {}


class NativeError(Exception):
    pass


def exe(harnesses, extra=()):
    """built once per process tree (lock file in the scratch directory)"""
    key = tuple(harnesses) + tuple(extra)
    if key in _exe:
        return _exe[key]
    d = os.path.join(build.scratch(), 'native%08x' % zlib.crc32(repr(key).encode()))
    os.makedirs(d, exist_ok=True)
    e = os.path.join(d, 'run')
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(e):
            _exe[key] = e
            return e
        if os.path.exists(e + '.failed'):
            raise NativeError(open(e + '.failed').read())
        try:
            _build(d, e, harnesses, extra)
        except NativeError as x:
            with open(e + '.failed', 'w') as f:
                f.write(str(x))
            raise
    _exe[key] = e
    return e


def _build(d, e, harnesses, extra):
    # a harness that redefines a function of a library asks for unoptimised code, where no call is inlined
    o0 = any('native: -O0' in open(h).readline() for h in harnesses)
    flags = ['-std=c++17', '-O0' if o0 else '-O1', '-g1', '-DNDEBUG', '-DVNATIVE', '-fsanitize=address', '-fno-omit-frame-pointer', '-w',
             '-I' + build.REPO + '/src', '-I/usr/include/eigen3', '-I' + build.HERE] + list(extra)
    hd = os.path.join(os.path.dirname(build.HERE), 'harness')
    srcs = list(harnesses) + [os.path.join(hd, 'native_rt.cpp')] + build.repo_sources()

    def one(s):
        o = os.path.join(d, os.path.basename(s) + '.o')
        p = subprocess.run(['g++'] + flags + ['-c', s, '-o', o], capture_output=True, text=True)
        if p.returncode:
            raise NativeError(p.stderr[-2000:])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    p = subprocess.run(['g++', '-fsanitize=address', '-rdynamic'] + objs + ['-o', e + '.tmp', '-ldl'], capture_output=True, text=True)
    if p.returncode:
        raise NativeError(p.stderr[-2000:])
    os.rename(e + '.tmp', e)


_n = [0]


def run(e, entry, cases, timeout=120):
    """cases: [(env name->value, choices)] -> [{'outs':[...], 'uncaught':..., 'crash':..., 'missing':[]}]"""
    _n[0] += 1
    base = os.path.join(build.scratch(), 'case%d.%d' % (os.getpid(), _n[0]))
    with open(base + '.in', 'w') as f:
        for env, ch in cases:
            for k, v in env.items():
                f.write('v %s %s\n' % (k, float(v).hex()))
            for c in ch:
                f.write('c %d\n' % c)
            f.write('run\n')
    try:
        p = subprocess.run([e, entry, base + '.in', base + '.out'], capture_output=True, text=True, timeout=timeout,
                           env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1'}, errors='replace')
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = -1, 'timeout'
    res = []
    try:
        lines = open(base + '.out').read().splitlines()
    except OSError:
        lines = []
    for ln in lines:
        w = ln.split('\t' if ln[:4] in ('out\t', 'int\t') else ' ')
        if w[0] == 'case':
            res.append({'outs': [], 'uncaught': None, 'crash': None, 'missing': [], 'drawn': {}, 'chose': [], 'done': False, 'assume': True})
        elif not res:
            continue
        elif w[0] == 'out':
            res[-1]['outs'].append((w[1], int(w[2]), int(w[3]), int(w[4]), [T.const(float.fromhex(x) if x[-3:] not in ('nan', 'inf') else float(x)) for x in w[5:]]))
        elif w[0] == 'int':
            res[-1]['outs'].append((w[1], int(w[2]), 'int', int(w[3]), []))
        elif w[0] == 'uncaught':
            res[-1]['uncaught'] = ln[9:]
            res[-1]['done'] = True
        elif w[0] == 'drawn':
            res[-1]['drawn'][w[1]] = float.fromhex(w[2])
        elif w[0] == 'chose':
            res[-1]['chose'].append(int(w[1]))
        elif w[0] == 'missing':
            res[-1]['missing'].append(w[1])
        elif w[0] == 'assume_failed':
            res[-1]['assume'] = False
        elif w[0] == 'done':
            res[-1]['done'] = True
    if rc != 0:
        i = err.find('ERROR: AddressSanitizer')
        msg = err[i:i + 600] if i >= 0 else 'exit %s %s' % (rc, err[-300:])
        if not res or res[-1]['done']:
            res.append({'outs': [], 'uncaught': None, 'crash': msg, 'missing': [], 'drawn': {}, 'chose': [], 'done': False, 'assume': True})
        res[-1]['crash'] = msg
    return res
