"""Bounds by polynomial expansion: |t| <= tol where t is a polynomial in leaves whose ranges follow from facts.

The exponential and the left Jacobian of a short vector v are expanded with their remainders:
 Exp(v) = I + (1 - a)[v] + (1/2 - b)[v]^2,  0 <= a <= |v|^2/6,  0 <= b <= |v|^2/24
 Jl(v)  = I + (1/2 - b)[v] + (1/6 - c)[v]^2, 0 <= c <= |v|^2/120"""
from fractions import Fraction as F
import terms as T


class No(Exception):
    pass


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        c += r.get(m, 0)
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    if len(a) * len(b) > 4000:
        raise No
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=str))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


class Poly:
    def __init__(s, facts, units, leaves=()):
        s.bound = {}          # leaf -> bound on its absolute value
        s.memo = {x.id: {(x.id,): F(1)} for x in leaves}
        for u in units:
            for x in u:
                s.bound[x.id] = F(1)
        for t, p, c in facts:
            c = F(c) if not isinstance(c, float) else T.const(c).c
            if p not in ('<', '<='):
                continue
            if t.op == 'sqrt':
                s.squares(t.a[0], c * c)
            elif t.op == 'acos' and 0 <= c <= 1:
                # cos(x) >= 1 - x^2/2: 1 - argument <= c^2/2
                s.squares(T.sub(T.ONE, t.a[0]), c * c / 2, units)

    def squares(s, t, c2, units=()):
        """t <= c2 with t a sum of squares (up to a unit constraint)"""
        try:
            p = s.poly(t)
        except No:
            return
        for u in list(units) + [None]:
            q = dict(p)
            if u is not None:
                # t + k (1 - |u|^2), k chosen to cancel the constant
                k = -q.get((), 0)
                one = {(): F(1)}
                for x in u:
                    one = padd(one, {(x.id, x.id): F(-1)})
                q = padd(q, pscale(one, k))
            if q and all(len(m) == 2 and m[0] == m[1] and c > 0 for m, c in q.items()):
                for m, c in q.items():
                    b = root(c2 / c)
                    if m[0] not in s.bound or b < s.bound[m[0]]:
                        s.bound[m[0]] = b

    def poly(s, t):
        r = s.memo.get(t.id)
        if r is not None:
            return r
        todo = [t]
        while todo:
            x = todo[-1]
            if x.id in s.memo:
                todo.pop()
                continue
            need = [y for y in x.a if y.id not in s.memo] if x.op in ('add', 'mul', 'neg', 'div', 'expso3', 'jl') else []
            if need:
                todo += need
                continue
            try:
                s.memo[x.id] = s.one(x)
            except No:
                s.memo[x.id] = {(x.id,): F(1)}
            todo.pop()
        return s.memo[t.id]

    def one(s, x):
        o = x.op
        P = [s.memo[y.id] for y in x.a] if o in ('add', 'mul', 'neg', 'div', 'expso3', 'jl') else None
        if o == 'const':
            return {(): F(x.c)} if x.c else {}
        if o == 'add':
            return padd(*P)
        if o == 'mul':
            return pmul(*P)
        if o == 'neg':
            return pscale(P[0], -1)
        if o == 'div' and list(P[1]) == [()]:
            return pscale(P[0], 1 / P[1][()])
        if o in ('expso3', 'jl'):
            n2 = {}
            for p in P[:3]:
                n2 = padd(n2, pmul(p, p))
            N = s.absbound(n2)
            k = ('E' if o == 'expso3' else 'J', tuple(y.id for y in x.a))
            if o == 'expso3':
                A = {(): F(1), (('a', k),): F(-1)}
                s.bound[('a', k)] = N / 6
                B = {(): F(1, 2), (('b', k[1]),): F(-1)}
            else:
                A = {(): F(1, 2), (('b', k[1]),): F(-1)}
                B = {(): F(1, 6), (('c', k),): F(-1)}
                s.bound[('c', k)] = N / 120
            s.bound[('b', k[1])] = N / 24
            i, j = x.c
            v = P[:3]
            S = [[{}, pscale(v[2], -1), v[1]], [v[2], {}, pscale(v[0], -1)], [pscale(v[1], -1), v[0], {}]]
            q = pmul(v[i], v[j])
            if i == j:
                q = padd(q, pscale(n2, -1))
            r = padd(pmul(A, S[i][j]), pmul(B, q))
            return padd(r, {(): F(1)}) if i == j else r
        return {(x.id,): F(1)}

    def absbound(s, p):
        r = F(0)
        for m, c in p.items():
            b = abs(c)
            for x in m:
                if x not in s.bound:
                    raise No
                b *= s.bound[x]
            r += b
        return r


def root(x):
    """an upper bound on the square root"""
    n, d = x.numerator, x.denominator
    k = 1 << 200
    from math import isqrt
    return F(isqrt(n * k * k // d) + 1, k)


def reduce(p, units, bound):
    """the square of the largest component of a unit vector is one minus the other squares"""
    for u in units:
        x = max(u, key=lambda y: bound.get(y.id, F(1)))
        while True:
            out, more = {}, False
            for m, c in p.items():
                if m.count(x.id) >= 2:
                    more = True
                    q = list(m)
                    q.remove(x.id)
                    q.remove(x.id)
                    q = {tuple(q): c}
                    out = padd(out, q)
                    for y in u:
                        if y is not x:
                            out = padd(out, pmul(q, {(y.id, y.id): F(-1)}))
                else:
                    out = padd(out, {m: c})
            p = out
            if not more:
                break
    return p


def within(w, tol, facts, units, leaves=()):
    """True only when |w| <= tol follows"""
    try:
        p = Poly(facts, units, leaves)
        t = F(tol) if not isinstance(tol, float) else T.const(tol).c
        q = p.poly(w)
        return p.absbound(q) <= t or bool(units) and p.absbound(reduce(q, units, p.bound)) <= t
    except (No, ZeroDivisionError):
        return False
