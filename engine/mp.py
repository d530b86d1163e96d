"""50-digit evaluation of terms: tells a genuine small difference from rounding"""
import mpmath
import terms as T

mpmath.mp.dps = 50
M = mpmath.mpf


class MP(T.FL):
    """at the point of an FL evaluator; unit vectors are renormalised"""

    def __init__(s, fl, units=()):
        s.val = {}
        s.env = {k: M(v) for k, v in fl.env.items()}
        for u in units:
            if all(q.id in s.env for q in u):
                n = mpmath.sqrt(sum(s.env[q.id] ** 2 for q in u))
                for q in u:
                    s.env[q.id] /= n

    def _ev(s, t, a):
        op = t.op
        if op == 'const':
            return M(t.c.numerator) / M(t.c.denominator)
        if op == 'sym':
            return s.env[t.id]
        if op == 'add':
            return a[0] + a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'neg':
            return -a[0]
        if op == 'div':
            if a[1] == 0:
                raise T.NotField('division by zero')
            return a[0] / a[1]
        if op in ('sqrt', 'acos'):
            if op == 'sqrt' and a[0] < 0:
                if a[0] < -M(10) ** -40:
                    raise T.NotField('sqrt')
                a = [M(0)]
            r = mpmath.sqrt(a[0]) if op == 'sqrt' else mpmath.acos(a[0])
            if isinstance(r, mpmath.mpc):
                raise T.NotField(op)
            return r
        if op in ('sin', 'cos', 'tan'):
            return getattr(mpmath, op)(a[0])
        if op == 'atan2':
            return mpmath.atan2(a[0], a[1])
        if op == 'uf':
            return T.uf_value(t.c, a, mpmath.sin)
        if op == 'expso3':
            th = mpmath.sqrt(sum(x * x for x in a))
            f = (M(1), M(1) / 2) if th == 0 else (mpmath.sin(th) / th, (1 - mpmath.cos(th)) / th ** 2)
            return T._comb(a, 1, *f)[t.c[0]][t.c[1]]
        if op == 'jl':
            th = mpmath.sqrt(sum(x * x for x in a))
            f = (M(1) / 2, M(1) / 6) if th == 0 else ((1 - mpmath.cos(th)) / th ** 2, (th - mpmath.sin(th)) / th ** 3)
            return T._comb(a, 1, *f)[t.c[0]][t.c[1]]
        if op == 'jlinv':
            th = mpmath.sqrt(sum(x * x for x in a))
            f = M(1) / 12 if th == 0 else 1 / th ** 2 - (1 + mpmath.cos(th)) / (2 * th * mpmath.sin(th))
            return T._comb(a, 1, -M(1) / 2, f)[t.c[0]][t.c[1]]
        if op == 'logso3':
            m = [a[7] - a[5], a[2] - a[6], a[3] - a[1]]
            s2 = mpmath.sqrt(sum(x * x for x in m)) / 2
            if s2 < M(10) ** -12:
                raise T.NotField('log near the branch point')
            th = mpmath.atan2(s2, (a[0] + a[4] + a[8] - 1) / 2)
            return th / (2 * s2) * m[t.c]
        raise T.NotField(op)


REL = {'<': lambda x, c: x < c, '<=': lambda x, c: x <= c, '>': lambda x, c: x > c, '>=': lambda x, c: x >= c,
       '==': lambda x, c: abs(x - c) < 1e-12, '!=': lambda x, c: x != c}


def gap(fl, a, b, facts, units, rel=1e-11):
    """|a - b| when it exceeds rel*(1+|a|+|b|) at this point, with the facts holding; else None"""
    try:
        m = MP(fl, units)
        v = m.run([a, b] + [f[0] for f in facts])
    except (T.NotField, ZeroDivisionError, KeyError, ValueError):
        return None
    for x, (t, p, c) in zip(v[2:], facts):
        if not REL[p](x, M(c.numerator) / M(c.denominator) if hasattr(c, 'numerator') else M(c)):
            return None
    d = abs(v[0] - v[1])
    return float(d) if d > rel * (1 + abs(v[0]) + abs(v[1])) else None
