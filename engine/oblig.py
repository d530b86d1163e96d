"""Obligations of the factor contracts, and their discharge."""
import math
from fractions import Fraction as F
import terms as T, nra, sample, specs, polyb

PROVED, REFUTED, UNDEC = 'proved', 'refuted', 'undecided'


class Ob:
    __slots__ = ('cls', 'harness', 'path', 'name', 'status', 'env', 'detail', 'by', 'choices', 'native', 'facts', 'cuts', 'cutpos', 'free', 'r1')

    def __init__(s, cls, harness, path, name, status, detail='', env=None, by='', choices=None):
        s.cls, s.harness, s.path, s.name, s.status, s.detail, s.env, s.by = cls, harness, path, name, status, detail, env, by
        s.choices = choices
        s.native = s.r1 = s.facts = None


class Discharger:
    """decides whether terms vanish for every state satisfying the facts"""

    def __init__(s, units, seed=1, npts=12, trials=8):
        s.units, s.seed, s.npts, s.trials = units, seed, npts, trials
        s.cache = {}
        s.pts = {}
        s.by = {}

    def points(s, facts):
        k = tuple((f[0].id, f[1], f[2]) for f in facts)
        if k not in s.pts:
            s.pts[k] = sample.points(facts, s.units, s.npts, s.seed, tries=60)
        return s.pts[k]

    def zero(s, pairs, facts, tol=0.0):
        """pairs of (code term, contract term); -> list of (status, env, detail)"""
        out = [None] * len(pairs)
        todo = []
        for i, (a, b) in enumerate(pairs):
            if not isinstance(a, T.T):
                out[i] = (REFUTED, None, 'undefined (uninitialised) value', 'executor')
            elif a is b:
                out[i] = (PROVED, None, '', 'syntactic')
            elif T.isspecial(a) or any(x.op in ('div0', 'special') for x in T.topo([a])):
                out[i] = (REFUTED, None, 'the value is NaN or infinite: %s' % T.show(a), 'executor')
            else:
                k = (a.id, b.id)
                if s.cache.get(k):
                    out[i] = (PROVED, None, '', 'field')
                else:
                    todo.append(i)
        if todo:
            diffs = [T.sub(pairs[i][0], pairs[i][1]) for i in todo]
            ok, bad = T.fp_zero(diffs, s.units, trials=s.trials, seed=s.seed)
            if ok is None and not bad:      # outside the theory: one by one
                bad = set()
                for j, d in enumerate(diffs):
                    o, _ = T.fp_zero([d], s.units, trials=s.trials, seed=s.seed)
                    if o is not True:
                        bad.add(j)
            signed = set()
            fx = [reduced(t, c, facts) for t, q, c in facts if q == '=='] if bad else []
            if fx:
                sub = sorted(bad)
                ok, b2 = T.fp_zero([diffs[j] for j in sub], s.units, trials=s.trials, seed=s.seed, eqs=fx)
                if ok is not None:
                    signed = set(j for n, j in enumerate(sub) if n not in b2)
            sg = signs(facts) if bad else []
            if sg:
                sub = sorted(bad)
                ok, b2 = T.fp_zero([diffs[j] for j in sub], s.units, trials=s.trials, seed=s.seed, signs=sg)
                if ok is not None:
                    signed |= set(j for n, j in enumerate(sub) if n not in b2)
            for j, i in enumerate(todo):
                a, b = pairs[i]
                if j not in bad:
                    s.cache[(a.id, b.id)] = True
                    out[i] = (PROVED, None, '', 'field')
                    continue
                if j in signed:
                    out[i] = (PROVED, None, '', 'field with facts')
                    continue
                if tol and s.smallrot(a, b, facts, tol):
                    out[i] = (PROVED, None, '', 'polynomial bound')
                    continue
                if tol and polyb.within(diffs[j], tol, facts, s.units):
                    out[i] = (PROVED, None, '', 'polynomial bound')
                    continue
                out[i] = s.falsify(a, b, facts, tol)
        return out

    def falsify(s, a, b, facts, tol=0.0):
        r = s._falsify(a, b, facts, tol)
        if r[0] == REFUTED and r[1] is not None:
            fl = T.FL(dict(r[1]))
            try:
                if any(q == '==' and fl.run([t])[0] != float(c) for t, q, c in facts):
                    return r[:3] + (r[3] + ' near',)     # an equation of the path holds only nearly there
            except (T.NotField, KeyError):
                pass
        return r

    def _falsify(s, a, b, facts, tol=0.0):
        pts = s.points(facts)
        n = 0
        for fl in pts:
            try:
                x, y = fl.run([a, b])
            except T.NotField as e:
                return (UNDEC, None, 'no numeric semantics for %s' % e, '')
            if y != y:
                continue
            n += 1
            if x != x or abs(x - y) > tol + 1e-6 * (1 + abs(x) + abs(y)):
                return (REFUTED, dict(fl.env), 'code %.12g, contract %.12g' % (x, y), 'field+numeric')
        try:
            w = T.sub(a, b)
            if tol:
                if all(nra.infeasible(facts, g, s.units, 4000, tol=True, wide=True) for g in ((w, '>', tol), (w, '<', -tol))):
                    return (PROVED, None, '', 'z3')
            elif nra.infeasible(facts, (w, '!=', 0), s.units, 2000, wide=True):
                return (PROVED, None, '', 'z3')
        except Exception:
            pass
        import mp
        for fl in s.morepoints(facts):
            try:
                x, y = fl.run([a, b])
            except T.NotField:
                break
            if y != y:
                continue
            n += 1
            if x != x or abs(x - y) > tol + 1e-6 * (1 + abs(x) + abs(y)):
                return (REFUTED, dict(fl.env), 'code %.12g, contract %.12g' % (x, y), 'field+numeric')
            g = mp.gap(fl, a, b, facts, s.units)
            if g is not None and g > 1.001 * tol:
                return (REFUTED, dict(fl.env), 'code %.12g, contract %.12g, difference %.3g (50 digits)' % (x, y, g), 'field+50 digits')
        return (UNDEC, None, 'not an identity of the theory; %d admissible points agree' % n, '')

    def morepoints(s, facts):
        k = ('more',) + tuple((f[0].id, f[1], f[2]) for f in facts)
        if k not in s.pts:
            s.pts[k] = s.points(facts) + sample.points(facts, s.units, 60, s.seed + 1, tries=150, styles=(0, 1, 3, 4, 4, 5, 5))
        return s.pts[k]

    def smallrot(s, a, b, facts, tol):
        """|a - b| <= tol where, for a fact |v| < c, the field shows b = Exp(v)_ij (or a = Exp(v)_ij) and the polynomial
        bound does the rest"""
        for t, p, c in facts:
            if t.op != 'sqrt' or p not in ('<', '<=') or c > F(1, 1000):
                continue
            v = squares(t.a[0])
            if v is None or len(v) != 3:
                continue
            E = T.expso3(v)
            for a, b in ((a, b), (b, a)):
                ix = [(i, j) for i in range(3) for j in range(3) if polyb.within(T.sub(a, E[i][j]), tol, facts, s.units, [x for x in v if x.op not in ('const', 'neg')])]
                if ix:
                    ok, bad = T.fp_zero([T.sub(b, E[i][j]) for i, j in ix], s.units, trials=s.trials, seed=s.seed, signs=signs(facts))
                    if ok is not None and len(bad) < len(ix):
                        return True
        return False

    def positive(s, t, facts, kind, ex):
        """definedness side conditions: denominator nonzero, radicand nonnegative"""
        lo, ls, hi, hs = ex.interval(t)
        if kind == 'nz' and (lo is not None and (lo > 0 or lo == 0 and ls) or hi is not None and (hi < 0 or hi == 0 and hs)):
            return PROVED, None, 'interval'
        if kind == 'ge0' and lo is not None and lo >= 0:
            return PROVED, None, 'interval'
        goal = (t, '==' if kind == 'nz' else '<', 0)
        pts = s.points(facts)
        for fl in pts:
            try:
                x, = fl.run([t])
            except T.NotField:
                break
            if kind == 'ge0' and x < -1e-9 or kind == 'nz' and x == 0:
                return REFUTED, dict(fl.env), 'numeric'
        if nra.infeasible(facts, goal, s.units, 1500):
            return PROVED, None, 'z3'
        return UNDEC, None, ''


def reduced(t, c, facts):
    """the equation t = c without the factors known to be nonzero"""
    nz = set(f[0].id for f in facts if f[1] == '!=' and f[2] == 0 or f[1] == '>' and f[2] >= 0 or f[1] == '<' and f[2] <= 0)
    while True:
        if t.op == 'neg':
            t, c = t.a[0], -c
        elif t.op == 'mul' and t.a[0].op == 'const' and t.a[0].c:
            t, c = t.a[1], c / t.a[0].c
        elif t.op == 'mul' and t.a[1].op == 'const' and t.a[1].c:
            t, c = t.a[0], c / t.a[1].c
        elif c == 0 and t.op in ('div', 'sqrt'):
            t = t.a[0]
        elif c == 0 and t.op == 'mul' and t.a[0].id in nz:
            t = t.a[1]
        elif c == 0 and t.op == 'mul' and t.a[1].id in nz:
            t = t.a[0]
        elif c == 0 and t.op == 'mul' and t.a[0] is t.a[1]:
            t = t.a[0]
        else:
            return t, c


def signs(facts):
    return [(t, q in ('>', '>=')) for t, q, c in facts if c == 0 and q in ('>', '>=', '<', '<=')]


def squares(t):
    if t.op == 'add':
        a, b = squares(t.a[0]), squares(t.a[1])
        return None if a is None or b is None else a + b
    if t.op == 'mul' and t.a[0] is t.a[1]:
        return [t.a[0]]
    return None


def group(outs):
    g = {}
    for tag, idx, r, c, vals in outs:
        g.setdefault(tag, {}).setdefault(idx, []).append((r, c, vals))
    return g


def ival(g, tag, idx=0, default=None):
    x = g.get(tag, {}).get(idx)
    return default if x is None else x[0][1]


def has_garbage(t):
    return any(x.op == 'sym' and x.c[0].startswith(('garbage.', 'gr.')) for x in T.topo([t]))


STALE = set(7777.25 + k for k in range(3000)) | {float.fromhex('-0x1.ebebebebebebep-20')}


def obligations(H, outs, r1sym=None, symbolic=True, classes=None):
    """yield (cls, name, 'eq', [(code, contract)...], guards) and (cls, name, 'bool', ok, detail)"""
    g = group(outs)
    nv = len(H.vars)
    if ival(g, 'abstraction_failed'):
        yield ('unsupported', 'abstraction', 'bool', False, 'state abstraction not established')
        return
    consts = [ival(g, 'const', i) for i in range(nv)]
    # ---- definedness / exceptions
    yield ('defined', 'residual-no-throw', 'bool', not ival(g, 'rthrow'), 'compute_residual throws on an admissible state')
    yield ('defined', 'jacobian-no-throw', 'bool', not ival(g, 'jthrow'), 'compute_jacobians throws on an admissible state')
    yield ('container', 'residual_size', 'bool', ival(g, 'rsize') == H.rs, 'residual_size() is %s, contract %s' % (ival(g, 'rsize'), H.rs))
    yield ('container', 'variables', 'bool', ival(g, 'nvars') == nv and all(ival(g, 'varid', i) for i in range(nv)),
           'variables() does not list the factor variables in order')
    for i, v in enumerate(H.vars):
        yield ('container', 'variable size %d' % i, 'bool', ival(g, 'vsize', i) == v.size, 'size() is %s' % ival(g, 'vsize', i))
    yield ('residual', 'residual-returned', 'bool', not ival(g, 'rthrow'), 'compute_residual throws on an admissible state')
    yield ('jacobian', 'jacobians-returned', 'bool', not ival(g, 'jthrow'), 'compute_jacobians throws on an admissible state')
    r1 = r2in = None
    if 'r1' in g:
        rr, rc, r1 = g['r1'][0][0]
        ok = rr == H.rs and rc == 1
        yield ('residual', 'residual-length', 'bool', ok, 'residual has %sx%s entries, contract %s' % (rr, rc, H.rs))
        if not ok:
            r1 = None
    if 'r2' in g and r1 is not None:
        rr, rc, r2 = g['r2'][0][0]
        ok = rr == H.rs + 4
        pairs = []
        if ok:
            r2in = r2[2:H.rs + 2]
            for k in range(H.rs + 4):
                pairs.append((r2[k], r1[k - 2] if 2 <= k < H.rs + 2 else T.sym('gr.%d' % k)))
            yield ('overload', 'in-place = by-value, neighbours untouched', 'eq', pairs, [])
    # ---- residual definition
    for form, rv in (('residual-definition', r1), ('residual-definition, segment form', r2in)):
        if rv is None:
            continue
        if H.spec is not None:
            yield ('residual', form, 'eq', list(zip(rv, H.spec())), [])
        else:
            for gd, f in H.alts():
                if all(isinstance(x, T.T) for x in rv):
                    yield ('residual', form, 'eq', [(t, T.ZERO) for t in f(rv)], gd)
    # ---- purity
    for tag in ('post', 'post2'):
        if tag not in g:
            continue
        pairs, ok = [], True
        for idx, x in g['pre'].items():
            y = g[tag].get(idx)
            if x[0][0] == 'int':
                ok &= y is not None and y[0][1] == x[0][1]
            else:
                if y is None or len(y[0][2]) != len(x[0][2]):
                    ok = False
                else:
                    pairs += list(zip(y[0][2], x[0][2]))
        yield ('purity', 'frame-' + tag, 'bool', ok, 'a variable changed size or constancy during evaluation')
        yield ('purity', 'frame-' + tag, 'eq', pairs, [])
    # ---- Jacobian container
    if ival(g, 'jstate') is None:
        return
    nj = ival(g, 'njac')
    if nj is None:
        return
    yield ('container', 'jacobian-count', 'bool', nj == nv, '%s Jacobians for %d variables (constant flags %s, buffer state %s)' % (nj, nv, consts, ival(g, 'jstate')))
    bad = [i for i, v in enumerate(H.vars) if not consts[i] and (lambda x: x is None or x[0][:2] != (H.rs, v.size))(g.get('J', {}).get(i))]
    yield ('jacobian', 'jacobian-shape', 'bool', not bad, 'no Jacobian of the right shape for free variables %s (constant flags %s, buffer state %s)' % (bad, consts, ival(g, 'jstate')))
    src = r1sym if r1sym is not None else (r1 if symbolic else None)
    for i, v in enumerate(H.vars):
        x = g.get('J', {}).get(i)
        if x is None:
            yield ('container', 'jacobian-present %d' % i, 'bool', False, 'no Jacobian for variable %d' % i)
            continue
        r, c, vals = x[0]
        if consts[i]:
            ok = r * c == 0
            yield ('container', 'constant-empty %d' % i, 'bool', ok, 'constant variable %d has a %dx%d Jacobian' % (i, r, c))
            continue
        ok = r == H.rs and c == v.size
        yield ('container', 'shape %d' % i, 'bool', ok, 'Jacobian %d is %dx%d, contract %dx%d (constant flags %s, buffer state %s)' % (i, r, c, H.rs, v.size, consts, ival(g, 'jstate')))
        if not ok:
            continue
        if symbolic:
            bad = [k for k, t in enumerate(vals) if not isinstance(t, T.T) or has_garbage(t)]
            yield ('container', 'no-stale-entries %d' % i, 'bool', not bad, 'entries %s depend on the previous buffer contents' % bad[:4])
        elif any(isinstance(t, T.T) and (t.op == 'special' or t.op == 'const' and float(t.c) in STALE) for t in vals):
            yield ('container', 'no-stale-entries %d' % i, 'bool', False, 'an entry is NaN, uninitialised or left over from the previous buffer')
        if classes is not None and 'jacobian' not in classes:
            continue
        if src is None and H.spec is not None:
            src = H.spec()
        if src is None:
            continue
        pairs = []
        try:
            for k, (tan, rot) in enumerate(v.dirs()):
                col = T.diff(src, tan, rot)
                pairs += [(vals[k * r + q], col[q]) for q in range(r)]
        except T.DiffError as e:
            yield ('unsupported', 'derivative', 'bool', False, str(e))
            continue
        yield ('jacobian', 'jacobian %d' % i, 'eq', pairs, [])
