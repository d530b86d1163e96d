"""Runs the factor harnesses and discharges their obligations."""
import sys, time, os, collections
import build, symex, vhooks, terms as T, oblig, specs, nra
from oblig import Ob, PROVED, REFUTED, UNDEC

HDIR = os.path.join(os.path.dirname(build.HERE), 'harness')
FILES = ['h_bearing3d', 'h_factors3d', 'h_factors2d', 'h_generic']


class Run:
    def __init__(s):
        s.obs = []
        s.unsupported = []
        s.paths = 0
        s.called = set()
        s.contracts = collections.Counter()
        s.symr1 = {}
        s.time = {}


def run_harness(prog, H, classes, run, max_paths=4000):
    t0 = time.time()
    ex = symex.Exec(prog, {**vhooks.HARNESS, **vhooks.CONTRACTS}, max_paths=max_paths)
    try:
        paths = ex.explore(H.name)
    except symex.Unsupported as e:
        run.unsupported.append((H.name, str(e)))
        return
    except KeyError as e:
        run.unsupported.append((H.name, 'missing %s' % e))
        return
    run.paths += len(paths)
    run.called |= ex.called
    run.contracts.update(ex.contracts_used)
    d = oblig.Discharger(ex.units)
    for pi, p in enumerate(paths):
        r1sym = None

        def ob(cls, name, status, detail='', env=None, by=''):
            o = Ob(cls, H.name, pi, name, status, detail, env, by, list(p.choices))
            o.facts = p.facts
            o.r1 = r1sym
            run.obs.append(o)
            return o
        g = oblig.group(p.outs)
        r1sym = g['r1'][0][0][2] if 'r1' in g else None
        if p.status == 'fault':
            cls = 'container' if 'jstate' in g else 'defined'
            if cls in classes:
                ob(cls, 'memory-safety', REFUTED, str(p.notes[-1]), pick(d, p), 'executor')
            continue
        if p.status == 'throw':
            if 'defined' in classes:
                ob('defined', 'no-uncaught-exception', REFUTED, str(p.notes), pick(d, p), 'executor')
            continue
        if 'container' in classes:
            ob('container', 'memory-safety', PROVED, by='executor')
        for o in oblig.obligations(H, p.outs, classes=classes):
            cls, name, kind = o[:3]
            if cls == 'unsupported':
                run.unsupported.append((H.name, o[4]))
                continue
            if cls not in classes:
                continue
            if kind == 'bool':
                ok, detail = o[3], o[4]
                ob(cls, name, PROVED if ok else REFUTED, '' if ok else detail, None if ok else pick(d, p), 'executor')
                continue
            pairs, guards = o[3], o[4]
            facts = p.facts
            if guards:
                bad = False
                for gd in guards:
                    ex.p = p
                    lo, ls, hi, hs = interval_at(ex, p, gd[0])
                    if gd[1] == '>' and hi is not None and hi <= gd[2] or gd[1] == '<=' and lo is not None and (lo > gd[2] or lo == gd[2] and ls):
                        bad = True
                    elif nra.infeasible(p.facts, gd, ex.units):
                        bad = True
                if bad:
                    continue
                facts = p.facts + list(guards)
            res = d.zero(pairs, facts)
            if H.known and name.startswith('residual-definition') and any(r[0] == REFUTED for r in res):
                alt = d.zero(list(zip([a for a, b in pairs], H.known[1]())), facts)
                if all(r[0] == PROVED for r in alt):
                    res = [('known', r[1], H.known[0], '') if r[0] == REFUTED else r for r in res]
            for k, (st, env, det, by) in enumerate(res):
                x = ob(cls, '%s[%d]' % (name, k), st, det, env, by)
                if st == REFUTED and env is None:
                    x.env = pick(d, p)
        if 'defined' in classes:
            seen = set()
            for kind, t, nf in p.divs:
                if (kind, t.id) in seen or kind == 'unit':
                    continue
                seen.add((kind, t.id))
                ex.p = p
                if not hasattr(ex, 'fp'):
                    continue
                st, env, by = d.positive(t, p.facts, kind, At(ex, p))
                ob('defined', '%s(%s)' % (kind, T.show(t, 3)), st, 'denominator can vanish' if st == REFUTED else '', env, by)
    run.time[H.name] = time.time() - t0


class At:
    def __init__(s, ex, p):
        s.ex, s.p = ex, p

    def interval(s, t):
        return interval_at(s.ex, s.p, t)


def interval_at(ex, p, t):
    ex.p = p
    try:
        return ex.interval(t)
    except T.Resample:
        return (None, False, None, False)


def pick(d, p):
    pts = d.points(p.facts)
    return dict(pts[0].env) if pts else None


def files():
    return [os.path.join(HDIR, f + '.cpp') for f in FILES]


# ---------------------------------------------------------------- native confirmation and bounded stand-in
def natives():
    import native
    return native.exe(files())


def judge(H, res, env, classes, r1sym=None, tol=1e-6):
    """numeric verdict on one native run: list of (cls, name, detail)"""
    bad = []
    if not res['assume']:
        return bad
    if res['crash']:
        g = oblig.group(res['outs'])
        bad.append(('container' if 'jstate' in g else 'defined', 'memory-safety', res['crash'].splitlines()[0]))
        return [b for b in bad if b[0] in classes]
    if res['uncaught'] is not None:
        bad.append(('defined', 'no-uncaught-exception', res['uncaught']))
    fl = T.FL(env)
    for o in oblig.obligations(H, res['outs'], r1sym=r1sym, symbolic=False, classes=classes):
        cls, name, kind = o[:3]
        if cls not in classes:
            continue
        if kind == 'bool':
            if not o[3]:
                bad.append((cls, name, o[4]))
            continue
        if o[4]:
            try:
                import sample
                if not all(sample.holds(v, p, c) for v, (t, p, c) in zip(fl.run([x[0] for x in o[4]]), o[4])):
                    continue
            except T.NotField:
                continue
        for k, (a, b) in enumerate(o[3]):
            try:
                x, y = fl.run([a, b])
            except (T.NotField, KeyError):
                continue
            if b.op == 'sym' and b.c[0].startswith('gr.'):
                y = 7777.25 + int(b.c[0][3:])
            if y != y:
                continue
            if x != x or abs(x) == float('inf') or abs(x - y) > tol * (1 + abs(x) + abs(y)):
                if H.known and name.startswith('residual-definition'):
                    z = fl.run([H.known[1]()[k]])[0]
                    if abs(x - z) <= tol * (1 + abs(x) + abs(z)):
                        continue
                bad.append((cls, '%s[%d]' % (name, k), 'native %.12g, contract %.12g' % (x, y)))
    return bad


def named(env):
    return {T._all[k].c[0]: v for k, v in env.items()}


def byterm(names):
    """name -> value to term id -> value (every kind of the symbol)"""
    e = {}
    for n, v in names.items():
        for kind in ('', 'pos', 'angle'):
            e[T.sym(n, kind).id] = v
    return Envd(e)


class Envd(dict):
    def __missing__(s, k):
        n = T._all[k].c[0]
        if n.startswith('gr.') or n.startswith('garbage.'):
            return 7777.25 + int(n.split('.')[1])
        return 0.37 + 0.11 * int(n.split('.')[1])


def confirm(o, classes):
    import native
    H = specs.BYNAME[o.harness]
    if o.env is None:
        return None
    env = named(o.env)
    res = native.run(natives(), o.harness, [(env, o.choices)])
    if not res:
        return None
    bad = judge(H, res[0], byterm(env), classes, r1sym=o.r1)
    if not bad and o.by.startswith('field+50 digits'):
        bad = judge(H, res[0], byterm(env), classes, r1sym=o.r1, tol=1e-11)
    return {'inputs': env, 'choices': o.choices, 'failures': bad[:8]}


def units_of(harness):
    """names of the unit vectors of a harness (from its text)"""
    import re
    for f in files():
        m = re.search(r'void %s\(.*?^}' % harness, open(f).read(), re.S | re.M)
        if m:
            return re.findall(r'(?:unit3|plane_normal|vunit)\("(\w+)"', m.group(0))
    return []


def bounded(H, classes, seed, n):
    """native random testing of a harness outside the verifier's reach"""
    import native, random, zlib
    rng = random.Random(zlib.crc32(('%s %s' % (seed, H.name)).encode()))
    terms = []
    for v in H.vars:
        terms += v.value()
    try:
        terms += H.spec() if H.spec else [g[0] for gd, f in H.alts() for g in gd] + H.alts()[0][1](H.vars and [T.ZERO] * H.rs)
    except Exception:
        pass
    syms = [t for t in T.topo(terms) if t.op == 'sym']
    groups = [tuple(T.sym('%s.%d' % (u, i)) for i in range(3)) for u in units_of(H.name)]
    import sample
    cases = []
    for _ in range(n):
        e = sample.Env(rng, groups, rng.choice((0, 0, 1, 3)))
        cases.append(({t.c[0]: e[t.id] for t in syms}, [rng.randrange(2)] + [rng.randrange(2) if rng.random() < .4 else 0 for _ in H.vars] + [rng.randrange(3)]))
    done = 0
    while done < n:
        res = native.run(natives(), H.name, cases[done:])
        if not res:
            break
        for (env, ch), r in zip(cases[done:], res):
            bad = judge(H, r, byterm(env), classes)
            if bad:
                return done, {'inputs': env, 'choices': ch, 'failures': bad[:8]}
            done += 1
        if res[-1]['crash']:
            done += 0
    return done, None
