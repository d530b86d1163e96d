"""z3 (nonlinear real arithmetic) queries on terms: path feasibility and side conditions."""
import time
import z3
import terms as T

stats = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
_cache = {}
MAXN = 160


def topo(roots):
    """like terms.topo, but uninterpreted applications are leaves"""
    seen, out, st = set(), [], [(r, False) for r in reversed(roots)]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        if t.op != 'uf':
            st.extend((x, False) for x in t.a)
    return out


class TooBig(Exception):
    pass


class Tr:
    def __init__(self, units=(), tol=False):
        self.tol = tol
        self.v = {}
        self.side = []
        self.units = units
        self.rot = {}
        self.used = set()

    def go(self, roots):
        nodes = topo(roots)
        if len(nodes) > MAXN:
            raise TooBig()
        for t in nodes:
            if t.id in self.v:
                continue
            self.v[t.id] = self.one(t, [self.v[x.id] for x in t.a] if t.op != 'uf' else ())
        return [self.v[r.id] for r in roots]

    def one(self, t, a):
        op = t.op
        if op == 'const':
            return z3.RealVal(str(t.c))
        if op == 'sym':
            x = z3.Real('s%d' % t.id)
            self.used.add(t.id)
            if t.c[1] == 'pos':
                self.side.append(x > 0)
            elif t.c[1] == 'angle':
                self.side += [x <= z3.RealVal('3.1415926535897935'), x > -z3.RealVal('3.1415926535897935')]
            return x
        if op == 'add':
            return a[0] + a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'neg':
            return -a[0]
        x = z3.Real('t%d' % t.id)
        if op == 'div':
            self.side.append(z3.Implies(a[1] != 0, x * a[1] == a[0]))
            return x
        if op == 'sqrt':
            self.side += [x >= 0, z3.Implies(a[0] >= 0, x * x == a[0])]
            return x
        if op == 'uf':
            if t.c[2] == 1:
                self.side.append(x > 0)
            return x
        if op in ('sin', 'cos'):
            o = 'cos' if op == 'sin' else 'sin'
            y = z3.Real('t%d' % T.mk(o, t.a).id)
            self.side += [x * x + y * y == 1]
            return x
        if op == 'acos':
            # 0 <= acos <= pi; cos(x) >= 1 - x^2/2; cos(x) <= -1 + (pi - x)^2/2
            y = z3.RealVal('3.1415926535897935') - x
            self.side.append(z3.Implies(z3.And(a[0] >= -1, a[0] <= 1), 1 + a[0] <= y * y / 2))
            self.side += [x >= 0, x <= z3.RealVal('3.1415926535897935'), z3.Implies(z3.And(a[0] >= -1, a[0] <= 1), 1 - a[0] <= x * x / 2)]
            return x
        if op == 'tan':
            # tan(x) >= x on [0, pi/2)
            self.side.append(z3.Implies(z3.And(a[0] >= 0, a[0] < z3.RealVal('1.5707963267948966')), x >= a[0]))
            return x
        if op == 'jl' and self.tol:
            # left Jacobian I + B [v] + C [v]^2 with 0 <= B = (1-cos th)/th^2 <= 1/2, 0 <= C = (th - sin th)/th^3 <= 1/6
            k = ('jl',) + tuple(q.id for q in t.a)
            B, C = z3.Real('jlB%s' % '_'.join(map(str, k[1:]))), z3.Real('jlC%s' % '_'.join(map(str, k[1:])))
            n2 = sum(q * q for q in a)
            if k not in self.rot:
                self.rot[k] = (B, C)
                self.side += [B >= 0, B <= z3.RealVal('1/2'), B >= z3.RealVal('1/2') - n2 / 24, C >= 0, C <= z3.RealVal('1/6')]
            i, j = t.c
            S = [[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]
            return (1 if i == j else 0) + B * S[i][j] + C * (a[i] * a[j] - (n2 if i == j else 0))
        if op == 'atan2':
            # atan2(y >= 0, x >= 0) is at most pi/2
            self.side += [z3.Implies(z3.And(a[0] >= 0, a[1] >= 0), z3.And(x >= 0, x <= z3.RealVal('1.5707963267948966'))),
                          x >= -z3.RealVal('3.1415926535897935'), x <= z3.RealVal('3.1415926535897935')]
            return x
        if op == 'logso3' and self.tol:
            # M = Exp(L): |M - I| <= |L| entrywise
            k = ('log',) + tuple(q.id for q in t.a)
            if k not in self.rot:
                L = self.rot[k] = [z3.Real('t%d' % T.mk('logso3', t.a, i).id) for i in range(3)]
                n2 = sum(q * q for q in L)
                for i in range(9):
                    self.side.append((a[i] - (1 if i % 4 == 0 else 0)) * (a[i] - (1 if i % 4 == 0 else 0)) <= n2)
            return x
        if op == 'expso3':
            k = tuple(q.id for q in t.a)
            if k not in self.rot:
                R = [[z3.Real('t%d' % T.mk('expso3', t.a, (i, j)).id) for j in range(3)] for i in range(3)]
                self.rot[k] = R
                if self.tol:
                    n2 = sum(q * q for q in a)
                    for i in range(3):
                        for j in range(3):
                            e_ = R[i][j] - (1 if i == j else 0)
                            self.side.append(e_ * e_ <= n2)
                            # |Exp(v) - I - [v]| <= |v|^2 entrywise
                            e_ = e_ - ([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]][i][j])
                            self.side += [e_ <= n2, e_ >= -n2]
                    return x
                for i in range(3):
                    for j in range(i, 3):
                        self.side.append(sum(R[i][l] * R[j][l] for l in range(3)) == (1 if i == j else 0))
                        self.side.append(sum(R[l][i] * R[l][j] for l in range(3)) == (1 if i == j else 0))
            return x
        return x


def _rel(x, p, c):
    c = z3.RealVal(str(T.const(c).c if isinstance(c, float) else c))
    return {'<': x < c, '<=': x <= c, '>': x > c, '>=': x >= c, '==': x == c, '!=': x != c}[p]


_leaves = {}


def leaves(t):
    r = _leaves.get(t.id)
    if r is None:
        r = _leaves[t.id] = frozenset(x.id for x in topo([t]) if x.op in ('sym', 'uf'))
    return r


def infeasible(facts, goal, units=(), timeout=1500, tol=False, wide=False):
    """True only when facts and goal are contradictory over the reals"""
    t, p, c = goal
    key = (tuple((f[0].id, f[1], f[2]) for f in facts), t.id, p, c, tol, wide)
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = _infeasible(facts, goal, units, timeout, tol, wide)
    return r


def _infeasible(facts, goal, units, timeout, tol=False, wide=False):
    t, p, c = goal
    try:
        tr = Tr(units, tol)
        s = z3.Solver()
        s.set('timeout', timeout)
        (x,) = tr.go([t])
        s.add(_rel(x, p, c))
        gl = leaves(t)
        if wide:
            # 'touch': the facts that share a leaf with the goal; True: every fact
            g0 = gl
            for ft, fp, fc in facts:
                if wide is True or leaves(ft) & g0:
                    gl |= leaves(ft)
            if wide == 'touch':
                facts = [f for f in facts if leaves(f[0]) & g0]
        for ft, fp, fc in facts:
            if leaves(ft) <= gl:
                try:
                    (y,) = tr.go([ft])
                except TooBig:
                    continue
                s.add(_rel(y, fp, fc))
        for u in units:
            if all(q.id in gl for q in u):
                xs = tr.go(list(u))
                s.add(sum(q * q for q in xs) == 1)
        s.add(*tr.side)
    except TooBig:
        return False
    t0 = time.time()
    r = s.check()
    stats['queries'] += 1
    stats['time'] += time.time() - t0
    stats[str(r)] += 1
    return r == z3.unsat
