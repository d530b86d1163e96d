"""Harnesses whose contracts are assertions in the harness itself (vassert.hpp): execution and discharge."""
import time, collections, zlib, random
import build, symex, vhooks, terms as T, oblig, nra, sample
from oblig import Ob, PROVED, REFUTED, UNDEC


class Spec:
    """entry, classes it serves; inputs for the bounded native stand-in; hooks: callee contracts to use"""

    def __init__(s, name, classes, hooks=True, natgen=None, max_paths=3000, extra=None, budget=None, opaque=False):
        s.name, s.classes, s.hooks, s.natgen, s.max_paths = name, set(classes), hooks, natgen, max_paths
        s.extra = extra or {}
        s.budget = budget
        s.opaque = opaque or name[:2] == 'o_'


def collect(outs):
    """-> [(kind, cls, name, payload)] in program order"""
    res, pend = [], {}
    for tag, idx, r, c, vals in outs:
        w = tag.split(':')
        if len(w) < 3 or w[0] not in ('E', 'T', 'L', 'B'):
            continue
        if w[0] == 'B':
            res.append(('B', w[1], w[2], c))
        elif idx == 0:
            pend[tag] = vals
        else:
            res.append((w[0], w[1], w[2], (pend.pop(tag), vals, float(w[3]) if w[0] == 'T' else 0.0)))
    return res


def run_spec(prog, S, classes, run):
    t0 = time.time()
    hooks = {**vhooks.HARNESS, **(vhooks.CONTRACTS if S.hooks else {}), **S.extra, **vhooks.eigen_contracts(prog)}
    ex = symex.Exec(prog, hooks, max_paths=S.max_paths)
    ex.opaque = S.opaque
    try:
        paths = ex.explore(S.name)
    except symex.Unsupported as e:
        run.unsupported.append((S.name, str(e)))
        return
    except (KeyError, symex.PathLimit) as e:
        run.unsupported.append((S.name, '%s %s' % (type(e).__name__, e)))
        return
    run.paths += len(paths)
    run.called |= ex.called
    run.contracts.update(ex.contracts_used)
    d = oblig.Discharger(ex.units)
    fails, vague = collections.Counter(), collections.Counter()
    for pi, p in enumerate(paths):
        def ob(cls, name, status, detail='', env=None, by=''):
            o = Ob(cls, S.name, pi, name, status, detail, env, by, list(p.choices))
            o.facts, o.cuts, o.cutpos, o.free = p.facts, p.cuts, p.cutpos, p.free
            run.obs.append(o)
            k = (cls, name.split('[')[0])
            fails[k] += status == REFUTED and env is not None
            vague[k] += status == UNDEC or status == REFUTED and env is None
            return o

        def pick():
            pts = d.points(p.facts)
            return dict(pts[0].env) if pts else None

        def unreachable():
            if dead[0] is None:
                dead[0] = bool(p.facts) and nra.infeasible(p.facts[:-1], p.facts[-1], d.units, 4000, wide=True)
            return dead[0]
        dead = [None]
        mine = sorted(S.classes & classes)
        if p.status in ('fault', 'throw'):
            for c in mine:
                ob(c, 'memory-safety' if p.status == 'fault' else 'no-uncaught-exception', REFUTED, str(p.notes[-1:]), pick(), 'executor')
            # what was asserted before still counts
        elif mine:
            ob(mine[0], 'no memory error, no uncaught exception', PROVED, by='executor')
        for kind, cls, name, x in collect(p.outs):
            if cls not in classes:
                continue
            if kind == 'B':
                if x == 1:
                    ob(cls, name, PROVED, by='executor')
                    continue
                env = None if fails[cls, name] >= 6 or vague[cls, name] >= 40 else pick()
                if env is None and fails[cls, name] < 6 and vague[cls, name] < 40 and unreachable():
                    ob(cls, name, PROVED, by='z3')
                else:
                    ob(cls, name, REFUTED, 'does not hold on this path', env, 'executor')
                continue
            a, b, tol = x
            if fails[cls, name] >= 6 or vague[cls, name] >= 40:
                # it fails already: the rest is not worth the time
                ob(cls, name, UNDEC, 'not tried after earlier failures')
                continue
            if any(not isinstance(t, T.T) for t in a):
                ob(cls, name, REFUTED, 'undefined (uninitialised) value', pick(), 'executor')
                continue
            if kind == 'L':
                for k, (u, v) in enumerate(zip(a, b)):
                    st, env, det, by = le(d, u, v, p.facts, ex, p)
                    ob(cls, '%s[%d]' % (name, k), st, det, env, by)
                continue
            pairs = list(zip(a, b))
            for k, r in enumerate(d.zero(pairs, p.facts, tol)):
                st, env, det, by = r
                o = ob(cls, '%s[%d]' % (name, k), st, det, env, by)
                if st == REFUTED and env is None:
                    o.env = pick()
    run.time[S.name] = time.time() - t0


def le(d, u, v, facts, ex, p, depth=0):
    if u is v:
        return PROVED, None, '', 'syntactic'
    w = T.sub(u, v)
    if T.isc(w):
        return (PROVED, None, '', 'syntactic') if w.c <= 0 else (REFUTED, None, 'constant difference %s' % float(w.c), 'syntactic')
    ex.p = p
    try:
        lo, ls, hi, hs = ex.interval(w)
        if hi is not None and hi <= 0:
            return PROVED, None, '', 'interval'
    except T.Resample:
        pass
    if any(nra.infeasible(facts, (w, '>', 0), d.units, 3000, tol=True, wide=m) for m in (False, 'touch', True)):
        return PROVED, None, '', 'z3'
    # u may be one of the angles it is built from
    if depth == 0:
        for t in T.topo([u]):
            if t.op in ('acos', 'atan2') or t.op == 'mul' and t.a[0].op == 'const' and t.a[1].op == 'atan2' or t.op == 'mul' and t.a[1].op == 'const' and t.a[0].op == 'atan2':
                lo, _, hi, _ = ex.interval(t)
                fx = facts + ([(t, '>=', T.Fraction(0))] if lo is not None and lo >= 0 else [(t, '<=', T.Fraction(0))] if hi is not None and hi <= 0 else [])
                for z in (t, T.neg(t)):
                    if d.zero([(u, z)], fx, 0)[0][0] == PROVED:
                        r = le(d, z, v, facts, ex, p, 1)
                        if r[0] == PROVED:
                            return PROVED, None, '', 'field+' + r[3]
    for fl in d.points(facts):
        try:
            x, y = fl.run([u, v])
        except T.NotField:
            break
        if x != x or x > y + 1e-7 * (1 + abs(x) + abs(y)):
            return REFUTED, dict(fl.env), 'code %.12g exceeds bound %.12g' % (x, y), 'numeric'
    return UNDEC, None, 'bound not decided', ''


# ---------------------------------------------------------------- native
def judge(res, classes, slack=1e-6):
    bad = []
    if not res['assume']:
        return bad
    if res['crash']:
        return [('*', 'memory-safety', res['crash'].splitlines()[0])]
    if res['uncaught'] is not None:
        bad.append(('*', 'no-uncaught-exception', res['uncaught']))
    for kind, cls, name, x in collect(res['outs']):
        if cls not in classes:
            continue
        if kind == 'B':
            if x != 1:
                bad.append((cls, name, 'does not hold'))
            continue
        a, b, tol = x
        for k, (u, v) in enumerate(zip(a, b)):
            u, v = fl(u), fl(v)
            sc = slack * (1 + abs(u) + abs(v)) + tol
            if kind == 'L' and not u <= v + sc or kind != 'L' and not abs(u - v) <= sc and not (u != u and v != v):
                bad.append((cls, '%s[%d]' % (name, k), 'native %.12g, contract %.12g' % (u, v)))
    return bad


def fl(t):
    return float(t.c) if t.op in ('const', 'special') else float('nan')


def confirm(files, o, classes):
    """the failing inputs on the real code; after a cut the state is arbitrary, so the run is started in it, and random
    values are tried under the same choices"""
    import native, factors
    if o.env is None:
        return None
    env = factors.named(o.env)
    cases = [(env, o.choices)]
    if getattr(o, 'cuts', 0):
        e2 = {k.replace('#', '.'): v for k, v in env.items()}
        cases.append((e2, o.choices[o.cutpos:]))
        rng = random.Random(7)
        for i in range(120):
            sd = {'__seed': float(rng.randrange(1 << 30)), '__style': (0.0, 2.0, 3.0)[i % 3]}
            cases.append(({**(env, e2, {}, {})[i % 4], **sd}, o.choices if i % 2 else o.choices[o.cutpos:]))
    e = native.exe(files)
    first = None
    while cases:
        res = native.run(e, o.harness, cases)
        if not res:
            break
        for (en, ch), r in zip(cases, res):
            bad = judge(r, classes) or (judge(r, classes, 1e-11) if o.by.startswith('field+50 digits') else [])
            c = {'inputs': {**en, **r['drawn']} if '__seed' in en else en, 'choices': r['chose'] if '__seed' in en else ch, 'failures': bad[:8]}
            if bad:
                return c
            first = first or c
        cases = cases[len(res):]
    return first


def bounded(files, S, classes, seed, n):
    """random native runs: inputs are drawn lazily by the native runtime from the seed"""
    import native
    e = native.exe(files)
    done = 0
    cases = []
    rng = random.Random(zlib.crc32(('%s %s' % (seed, S.name)).encode()))
    for i in range(n):
        cases.append(({'__seed': float(rng.randrange(1 << 30)), '__style': float(rng.choice((0, 0, 1, 2, 3, 4, 5)))}, []))
    while done < n:
        res = native.run(e, S.name, cases[done:])
        if not res:
            break
        for (env, ch), r in zip(cases[done:], res):
            bad = judge(r, classes)
            if bad:
                return done, {'inputs': r['drawn'], 'choices': r['chose'], 'failures': bad[:8]}
            done += 1
    return done, None
