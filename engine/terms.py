"""Hash-consed real terms; forward-mode differentiation; evaluation
 (a) in F_p, p = 2^127-1, with the SO(3)/trigonometric theory built in (identity decision),
 (b) in floating point (falsification, counterexamples).

The F_p evaluator decides identities in the field generated by the free symbols, square roots,
sin/cos/atan2/acos of terms, and the SO(3) maps Exp, Log and the inverse left Jacobian of Exp:
two terms that agree at K independent random points of F_p are equal as functions with error
probability < K-fold product of deg/2^127 (Schwartz-Zippel); signs of square roots are modelled by
quadratic residuosity (symbols known positive are sampled as squares; p = 3 mod 4 makes the residue
root multiplicative), so a wrong sign survives one trial with probability at most 1/2."""
import math, random, zlib
from fractions import Fraction

P = (1 << 127) - 1


class T:
    __slots__ = ("op", "a", "id", "c", "_h", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


def mk(op, a, c=None):
    k = (op, tuple(x.id for x in a), c)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.c = op, tuple(a), c
        t.id = len(_all)
        _tab[k] = t
        _all.append(t)
    return t


def const(x):
    if isinstance(x, float):
        if math.isnan(x):
            return mk('special', (), 'nan')
        if math.isinf(x):
            return mk('special', (), 'inf' if x > 0 else '-inf')
        # decimal literals such as 0.1 are meant as reals: use the shortest decimal that round-trips
        x = Fraction(repr(x))
    return mk('const', (), Fraction(x))


ZERO = const(0)
ONE = const(1)
HALF = const(Fraction(1, 2))
NAN = const(float('nan'))
INF = const(float('inf'))
NINF = const(float('-inf'))


def sym(name, kind=''):
    """kind: '' any real, 'pos' positive real, 'angle' principal angle in (-pi,pi]"""
    return mk('sym', (), (name, kind))


def isc(t):
    return t.op == 'const'


def isspecial(t):
    return t.op == 'special'


def _sp(*ts):
    return any(t.op == 'special' for t in ts)


def neg(a):
    if a.op == 'const':
        return const(-a.c)
    if a.op == 'neg':
        return a.a[0]
    if a.op == 'special':
        return {'nan': NAN, 'inf': NINF, '-inf': INF}[a.c]
    return mk('neg', (a,))


def add(a, b):
    if _sp(a, b):
        if a is NAN or b is NAN:
            return NAN
        if isspecial(a) and isspecial(b) and a is not b:
            return NAN
        return a if isspecial(a) else b
    if a.op == 'const' and b.op == 'const':
        return const(a.c + b.c)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'neg' and a.a[0] is b or b.op == 'neg' and b.a[0] is a:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if _sp(a, b):
        if a is NAN or b is NAN or a is ZERO or b is ZERO:
            return NAN
        o = b if isspecial(a) else a
        s = a if isspecial(a) else b
        if isspecial(o):
            return INF if (o is s) else NINF
        if o.op == 'const':
            return s if o.c > 0 else neg(s)
        return NAN
    if a.op == 'const' and b.op == 'const':
        return const(a.c * b.c)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == 'neg' and b.op == 'neg':
        return mul(a.a[0], b.a[0])
    if a.op == 'neg':
        return neg(mul(a.a[0], b))
    if b.op == 'neg':
        return neg(mul(a, b.a[0]))
    if a.op == 'const' and a.c == -1:
        return neg(b)
    if b.op == 'const' and b.c == -1:
        return neg(a)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b))


def div(a, b):
    if _sp(a, b):
        if a is NAN or b is NAN or (isspecial(a) and isspecial(b)):
            return NAN
        if isspecial(b):
            return ZERO
        if b.op == 'const' and b.c != 0:
            return a if b.c > 0 else neg(a)
        return NAN
    if b.op == 'const':
        if b.c == 0:
            if a.op == 'const':
                return NAN if a.c == 0 else (INF if a.c > 0 else NINF)
            return mk('div0', (a,))
        if a.op == 'const':
            return const(a.c / b.c)
        if b is ONE:
            return a
        return mul(const(1 / b.c), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    if a.op == 'neg':
        return neg(div(a.a[0], b))
    if b.op == 'neg':
        return neg(div(a, b.a[0]))
    return mk('div', (a, b))


def _isqrt_frac(fr):
    if fr < 0:
        return None
    n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return Fraction(n, d)
    return None


def sqrt(a):
    if a is NAN or a is NINF:
        return NAN
    if a is INF:
        return INF
    if a.op == 'const':
        r = _isqrt_frac(a.c)
        if r is not None:
            return const(r)
        if a.c < 0:
            return NAN
    return mk('sqrt', (a,))


def fn1(op, a):
    if isspecial(a):
        return NAN
    if a is ZERO:
        return {'sin': ZERO, 'cos': ONE, 'tan': ZERO}.get(op) or mk(op, (a,))
    if op == 'acos' and a is ONE:
        return ZERO
    if op in ('sin', 'tan') and a.op == 'neg':
        return neg(fn1(op, a.a[0]))
    if op == 'cos' and a.op == 'neg':
        return fn1(op, a.a[0])
    return mk(op, (a,))


def atan2(y, x):
    if _sp(x, y):
        return NAN
    if y is ZERO and x.op == 'const' and x.c > 0:
        return ZERO
    return mk('atan2', (y, x))


# SO3 groups: entries of Exp(v) (3 args), Log(M) (9 args, row-major), Jlinv(v) (3 args)
def expso3(v):
    if all(x is ZERO for x in v):
        return [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
    return [[mk('expso3', tuple(v), (i, j)) for j in range(3)] for i in range(3)]


def logso3(M):
    fl = [M[i][j] for i in range(3) for j in range(3)]
    if all(isc(x) for x in fl) and [x.c for x in fl] == [1, 0, 0, 0, 1, 0, 0, 0, 1]:
        return [ZERO, ZERO, ZERO]
    return [mk('logso3', tuple(fl), i) for i in range(3)]


def jlinv(v):
    if all(x is ZERO for x in v):
        return [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
    return [[mk('jlinv', tuple(v), (i, j)) for j in range(3)] for i in range(3)]


def jl(v):
    return [[mk('jl', tuple(v), (i, j)) for j in range(3)] for i in range(3)]


def skew(v):
    return [[ZERO, neg(v[2]), v[1]], [v[2], ZERO, neg(v[0])], [neg(v[1]), v[0], ZERO]]


def mm(A, B):
    n, k, m = len(A), len(B), len(B[0])
    R = []
    for i in range(n):
        row = []
        for j in range(m):
            s = ZERO
            for l in range(k):
                s = add(s, mul(A[i][l], B[l][j]))
            row.append(s)
        R.append(row)
    return R


def mv(A, v):
    return [r[0] for r in mm(A, [[x] for x in v])]


def tr(A):
    return [list(r) for r in zip(*A)]


def dot(a, b):
    s = ZERO
    for x, y in zip(a, b):
        s = add(s, mul(x, y))
    return s


def vsub(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def vadd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def vscale(s, v):
    return [mul(s, x) for x in v]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def madd(A, B):
    return [[add(x, y) for x, y in zip(r, s)] for r, s in zip(A, B)]


def mscale(s, A):
    return [[mul(s, x) for x in r] for r in A]


def outer(a, b):
    return [[mul(x, y) for y in b] for x in a]


def cross(a, b):
    return mv(skew(a), b)


def normalize(v):
    n = sqrt(dot(v, v))
    return [div(x, n) for x in v]


def show(t, d=4):
    if t.op == 'const':
        return str(t.c)
    if t.op == 'sym':
        return t.c[0]
    if t.op == 'special':
        return t.c
    if d == 0:
        return '..'
    if t.op in ('add', 'mul', 'div'):
        return '(%s%s%s)' % (show(t.a[0], d - 1), {'add': '+', 'mul': '*', 'div': '/'}[t.op], show(t.a[1], d - 1))
    if t.op == 'neg':
        return '-' + show(t.a[0], d - 1)
    c = '' if t.c is None else '[%s]' % (t.c,)
    return '%s%s(%s)' % (t.op, c, ','.join(show(x, d - 1) for x in t.a[:3]))


def topo(roots):
    """post-order list of all nodes reachable"""
    seen, out = set(), []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for x in t.a:
            if x.id not in seen:
                st.append((x, False))
    return out


def symbols(roots):
    return [t for t in topo(roots) if t.op == 'sym']


# ---------------------------------------------------------------- differentiation
class DiffError(Exception):
    pass


def diff(roots, tangent, rot=None):
    """directional derivative of each root. tangent: {leaf term: term}. rot: {(v-term ids): omega} gives
    d Exp(v) = [omega]x Exp(v) for rotation states that are perturbed on the group."""
    rot = rot or {}
    D = {}
    for t in topo(roots):
        if t in tangent:
            D[t.id] = tangent[t]
            continue
        op = t.op
        if op in ('const', 'sym', 'special'):
            D[t.id] = ZERO
            continue
        if op == 'expso3':
            key = tuple(x.id for x in t.a)
            if key in rot:
                w = rot[key]
            else:
                dv = [D[x.id] for x in t.a]
                if all(x is ZERO for x in dv):
                    D[t.id] = ZERO
                    continue
                w = mv(jl(t.a), dv)
            i, j = t.c
            col = [mk('expso3', t.a, (k, j)) for k in range(3)]
            D[t.id] = mv(skew(w), col)[i]
            continue
        d = [D[x.id] for x in t.a]
        if all(x is ZERO for x in d):
            D[t.id] = ZERO
            continue
        if op == 'neg':
            r = neg(d[0])
        elif op == 'add':
            r = add(d[0], d[1])
        elif op == 'mul':
            r = add(mul(d[0], t.a[1]), mul(t.a[0], d[1]))
        elif op == 'div':
            r = div(sub(d[0], mul(t, d[1])), t.a[1])
        elif op == 'sqrt':
            r = div(d[0], mul(const(2), t))
        elif op == 'sin':
            r = mul(fn1('cos', t.a[0]), d[0])
        elif op == 'cos':
            r = neg(mul(fn1('sin', t.a[0]), d[0]))
        elif op == 'tan':
            r = mul(add(ONE, mul(t, t)), d[0])
        elif op == 'acos':
            r = neg(div(d[0], sqrt(sub(ONE, mul(t.a[0], t.a[0])))))
        elif op == 'atan2':
            y, x = t.a
            r = div(sub(mul(x, d[0]), mul(y, d[1])), add(mul(x, x), mul(y, y)))
        elif op == 'logso3':
            M = [[t.a[3 * i + j] for j in range(3)] for i in range(3)]
            dM = [[d[3 * i + j] for j in range(3)] for i in range(3)]
            W = mm(dM, tr(M))
            w = [mul(HALF, sub(W[2][1], W[1][2])), mul(HALF, sub(W[0][2], W[2][0])), mul(HALF, sub(W[1][0], W[0][1]))]
            r = mv(jlinv(logso3(M)), w)[t.c]
        elif op == 'abs':
            raise DiffError('abs')
        else:
            raise DiffError('no derivative rule for ' + op)
        D[t.id] = r
    return [D[r.id] for r in roots]


# ---------------------------------------------------------------- F_p evaluation
class Resample(Exception):
    pass


class NotField(Exception):
    pass


def inv(x):
    if x % P == 0:
        raise Resample('division by zero')
    return pow(x, P - 2, P)


def fsqrt(x):
    """the root that is itself a quadratic residue"""
    x %= P
    if x == 0:
        return 0
    r = pow(x, (P + 1) // 4, P)
    if r * r % P != x:
        raise Resample('non-residue')
    if pow(r, (P - 1) // 2, P) != 1:
        r = P - r
    return r


def frac_p(fr):
    return fr.numerator % P * inv(fr.denominator) % P


class FP:
    """one random point of F_p"""

    def __init__(self, seed, units=(), angles=True, opaque=False):
        self.r = random.Random(seed)
        self.opaque = opaque    # the root of a non-square is a free value (asks for more than the reals do)
        self.seed = seed
        self.val = {}
        self.symv = {}
        self.units = {}
        for u in units:  # tuples of symbols on the unit sphere (3: direction, 4: unit quaternion)
            for x in u:
                self.units[x.id] = u
        self.tab = {}    # theta^2 -> (A=sin/theta, C=cos, H=tan(theta/2)/theta)
        self.cos2 = {}   # C -> theta (as residue) for angles in [0,pi]
        self.ang = {}    # (c,s) -> principal angle value
        self.ufs = {}    # (function, arguments) -> value

    def rnd(self):
        return self.r.randrange(1, P)

    def rpos(self):
        x = self.rnd()
        return x * x % P

    def symbol(self, t):
        v = self.symv.get(t.id)
        if v is not None:
            return v
        if t.id in self.units:
            u = self.units[t.id]
            a = [self.rnd() for _ in u[1:]]
            n2 = sum(x * x for x in a)
            d = inv(1 + n2)
            w = [2 * x * d % P for x in a] + [(1 - n2) * d % P]
            self.r.shuffle(w)
            for x, y in zip(u, w):
                self.symv[x.id] = y
            return self.symv[t.id]
        if t.c[1] == 'pos':
            v = self.rpos()
        else:
            v = self.rnd()
        self.symv[t.id] = v
        if t.c[1] == 'angle':
            A, C_, H = self.trig(v * v % P)
            self.ang[(C_, A * v % P)] = v
        return v

    def trig(self, th2):
        th2 %= P
        r = self.tab.get(th2)
        if r is None:
            if th2 == 0:
                r = (1, 1, frac_p(Fraction(1, 2)))
            else:
                h = self.rnd()
                d = inv(1 + h * h % P * th2)
                r = (2 * h * d % P, (1 - h * h % P * th2) * d % P, h)
                # keep acos/log in step with this angle
                self.cos2.setdefault(r[1], None)
                try:
                    self.cos2[r[1]] = fsqrt(th2)
                except Resample:
                    self.cos2.pop(r[1], None)
            self.tab[th2] = r
        return r

    def theta_of_cos(self, c):
        """theta in [0,pi] with cos theta = c, plus sin theta (as residue root)"""
        c %= P
        s = fsqrt((1 - c * c) % P)
        th = self.cos2.get(c)
        if th is None:
            if c == 1:
                th = 0
            elif c == P - 1:    # pi: sine 0, cosine -1 (the tangent of its half is left arbitrary)
                th = self.rpos()
                self.tab[th * th % P] = (0, c, self.rnd())
            else:
                th = self.rpos()
                self.tab[th * th % P] = (s * inv(th) % P, c, s * inv((1 + c) * th) % P)
            self.cos2[c] = th
        return th, s

    def sincos(self, t):
        """structural: splits sums and integer multiples so the addition formulas hold"""
        if t.op == 'neg':
            c, s = self.sincos(t.a[0])
            return c, (-s) % P
        if t.op == 'add':
            c1, s1 = self.sincos(t.a[0])
            c2, s2 = self.sincos(t.a[1])
            return (c1 * c2 - s1 * s2) % P, (s1 * c2 + c1 * s2) % P
        if t.op == 'mul' and t.a[0].op == 'const' and t.a[0].c.denominator == 1 and 2 <= abs(t.a[0].c) <= 8:
            c, s = self.sincos(t.a[1])
            rc, rs = 1, 0
            for _ in range(abs(int(t.a[0].c))):
                rc, rs = (rc * c - rs * s) % P, (rs * c + rc * s) % P
            return (rc, rs) if t.a[0].c > 0 else (rc, (-rs) % P)
        if t.op == 'mul' and t.a[1].op == 'const' and t.a[1].c.denominator == 1:
            return self.sincos(mk('mul', (t.a[1], t.a[0])))
        if t.op == 'atan2':
            y, x = self.ev(t.a[0]), self.ev(t.a[1])
            r = fsqrt((x * x + y * y) % P)
            if r == 0:
                raise Resample('atan2(0,0)')
            i = inv(r)
            return x * i % P, y * i % P
        if t.op == 'acos':
            c = self.ev(t.a[0])
            th, s = self.theta_of_cos(c)
            return c, s
        v = self.ev(t)
        A, C_, H = self.trig(v * v % P)
        return C_, A * v % P

    def ev(self, t):
        v = self.val.get(t.id)
        if v is None:
            V = self.val
            st = [t]
            while st:
                x = st[-1]
                if x.id in V:
                    st.pop()
                    continue
                need = [y for y in x.a if y.id not in V]
                if need:
                    st.extend(need)
                else:
                    V[x.id] = self._ev(x)
                    st.pop()
            v = V[t.id]
        return v

    def run(self, roots):
        return [self.ev(r) for r in roots]

    def _ev(self, t):
        op = t.op
        if op == 'const':
            return frac_p(t.c)
        if op == 'sym':
            return self.symbol(t)
        if op == 'add':
            return (self.ev(t.a[0]) + self.ev(t.a[1])) % P
        if op == 'mul':
            return self.ev(t.a[0]) * self.ev(t.a[1]) % P
        if op == 'neg':
            return (-self.ev(t.a[0])) % P
        if op == 'div':
            return self.ev(t.a[0]) * inv(self.ev(t.a[1])) % P
        if op == 'sqrt':
            x = self.ev(t.a[0])
            if self.opaque:
                try:
                    return fsqrt(x)
                except Resample:
                    return random.Random(x * 1000003 + hash(self.seed)).randrange(1, P)
            return fsqrt(x)
        if op == 'sin':
            return self.sincos(t.a[0])[1]
        if op == 'cos':
            return self.sincos(t.a[0])[0]
        if op == 'tan':
            x = t.a[0]
            if x.op == 'mul' and x.a[0] is HALF or x.op == 'mul' and x.a[1] is HALF:
                y = x.a[1] if x.a[0] is HALF else x.a[0]
                if y.op == 'acos':
                    c, s = self.sincos(y)
                    return s * inv(1 + c) % P
                if y.op not in ('add', 'neg', 'atan2'):
                    v = self.ev(y)
                    return self.trig(v * v % P)[2] * v % P
                c, s = self.sincos(y)
                return s * inv(1 + c) % P
            c, s = self.sincos(x)
            return s * inv(c) % P
        if op == 'atan2':
            c, s = self.sincos(t)
            v = self.ang.get((c, s))
            if v is None:
                if s == 0 and c == 1:
                    v = 0
                else:
                    m = self.ang.get((c, (-s) % P))
                    if m is not None:
                        v = (-m) % P
                    else:
                        # keep acos in step: acos(c) = |angle|
                        th = self.cos2.get(c)
                        if th is None:
                            v = self.rnd()
                            self.tab[v * v % P] = (s * inv(v) % P, c, s * inv((1 + c) * v) % P)
                        else:
                            A = self.tab.get(th * th % P)
                            v = th if A is not None and A[0] * th % P == s else (-th) % P
                self.ang[(c, s)] = v
                if v and c and s:      # twice this angle
                    self.tab.setdefault(4 * v * v % P, (s * c % P * inv(v) % P, (c * c - s * s) % P, s * inv(2 * v * c) % P))
            return v
        if op == 'acos':
            return self.theta_of_cos(self.ev(t.a[0]))[0]
        if op == 'expso3':
            v = [self.ev(x) for x in t.a]
            th2 = sum(x * x for x in v) % P
            A, C_, H = self.trig(th2)
            if th2 == 0:
                raise Resample
            B = (1 - C_) * inv(th2) % P
            i, j = t.c
            S = [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]
            r = A * S[i][j] + B * v[i] * v[j] + (C_ if i == j else 0)
            return r % P
        if op == 'logso3':
            M = [self.ev(x) for x in t.a]
            c = (M[0] + M[4] + M[8] - 1) * frac_p(Fraction(1, 2)) % P
            m = [(M[7] - M[5]) % P, (M[2] - M[6]) % P, (M[3] - M[1]) % P]
            # lambda = theta/(2 sin theta): rational in (A): theta/(2 A theta)=1/(2A)
            lam = self.lam(c)
            return lam * m[t.c] % P
        if op == 'jlinv':
            v = [self.ev(x) for x in t.a]
            th2 = sum(x * x for x in v) % P
            A, C_, H = self.trig(th2)
            # Jl^-1 = I - 1/2 [v] + (1/th^2 - (1+C)/(2 th sin)) [v]^2 ; th*sin = A th^2
            k = (inv(th2) - (1 + C_) * inv(2 * A * th2)) % P
            i, j = t.c
            S = [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]
            s2 = v[i] * v[j] - (th2 if i == j else 0)
            return ((1 if i == j else 0) - frac_p(Fraction(1, 2)) * S[i][j] + k * s2) % P
        if op == 'jl':
            v = [self.ev(x) for x in t.a]
            th2 = sum(x * x for x in v) % P
            A, C_, H = self.trig(th2)
            it = inv(th2)
            i, j = t.c
            S = [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]
            s2 = v[i] * v[j] - (th2 if i == j else 0)
            return ((1 if i == j else 0) + (1 - C_) * it * S[i][j] + (1 - A) * it * s2) % P
        if op == 'uf':      # uninterpreted function: any value, determined by the arguments
            k = (t.c, tuple(self.ev(x) for x in t.a))
            v = self.ufs.get(k)
            if v is None:
                v = self.rnd()
                v = self.ufs[k] = v * v % P if t.c[2] == 1 else v
            return v
        raise NotField(op)

    def lam(self, c):
        """theta/(2 sin theta) for the angle in [0,pi] with cosine c (no square root needed)"""
        if not hasattr(self, '_lam'):
            self._lam = {}
        l = self._lam.get(c)
        if l is None:
            # any tabulated angle with this cosine?
            for th2, (A, C_, H) in self.tab.items():
                if C_ == c:
                    l = inv(2 * A)
                    break
            if l is None:
                l = self.rpos()
                th2 = 4 * l * l % P * (1 - c * c) % P
                A = inv(2 * l)
                # H = tan(th/2)/th = sin/((1+c) th) = A/(1+c)
                self.tab[th2] = (A, c, A * inv(1 + c) % P)
                try:
                    self.cos2[c] = fsqrt(th2)
                except Resample:
                    pass
            self._lam[c] = l
        return l


# ---------------------------------------------------------------- floating evaluation
class Undefined(Exception):
    pass


class FL:
    def __init__(self, env):
        self.env = env      # sym term id -> float
        self.val = {}

    def run(self, roots):
        V = self.val
        for t in topo(roots):
            if t.id in V:
                continue
            V[t.id] = self._ev(t, [V[x.id] for x in t.a])
        return [V[r.id] for r in roots]

    def _ev(self, t, a):
        op = t.op
        try:
            if op == 'const':
                return float(t.c)
            if op == 'sym':
                return self.env[t.id]
            if op == 'special':
                return float(t.c)
            if op == 'add':
                return a[0] + a[1]
            if op == 'mul':
                return a[0] * a[1]
            if op == 'neg':
                return -a[0]
            if op == 'div':
                return a[0] / a[1]
            if op == 'div0':
                return a[0] * math.inf
            if op == 'sqrt':
                return math.sqrt(a[0])
            if op == 'sin':
                return math.sin(a[0])
            if op == 'cos':
                return math.cos(a[0])
            if op == 'tan':
                return math.tan(a[0])
            if op == 'acos':
                return math.acos(a[0])
            if op == 'atan2':
                return math.atan2(a[0], a[1])
            if op == 'expso3':
                return _exp(a)[t.c[0]][t.c[1]]
            if op == 'logso3':
                return _log(a)[t.c]
            if op == 'jlinv':
                return _jlinv(a)[t.c[0]][t.c[1]]
            if op == 'jl':
                return _jl(a)[t.c[0]][t.c[1]]
            if op == 'uf':
                return uf_value(t.c, a, math.sin)
        except (ZeroDivisionError, ValueError, OverflowError):
            return math.nan
        raise NotField(op)


def uf(name, idx, args, kind=0):
    return mk('uf', tuple(args), (name, idx, kind))


def uf_value(c, a, sin):
    """one concrete smooth function standing for an uninterpreted one (the native runtime computes the same)"""
    name, idx, kind = c
    g = lambda k: (zlib.crc32(('%s#%d#%d' % (name, idx, k)).encode()) % 4001 - 2000) / 1000
    s = g(0)
    for k, x in enumerate(a):
        s = s + g(2 * k + 1) * x + sin(x + g(2 * k + 2))
    return s * s + 0.1 if kind == 1 else s


def _sk(v):
    return [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]


def _comb(v, a, b, c):
    """a I + b [v] + c [v]^2"""
    S = _sk(v)
    th2 = sum(x * x for x in v)
    return [[(a if i == j else 0) + b * S[i][j] + c * (v[i] * v[j] - (th2 if i == j else 0)) for j in range(3)]
            for i in range(3)]


def _exp(v):
    th = math.sqrt(sum(x * x for x in v))
    if th < 1e-5:
        return _comb(v, 1, 1 - th * th / 6, 0.5 - th * th / 24)
    return _comb(v, 1, math.sin(th) / th, (1 - math.cos(th)) / th ** 2)


def _jl(v):
    th = math.sqrt(sum(x * x for x in v))
    if th < 1e-3:
        return _comb(v, 1, 0.5 - th * th / 24, 1 / 6 - th * th / 120)
    return _comb(v, 1, (1 - math.cos(th)) / th ** 2, (th - math.sin(th)) / th ** 3)


def _jlinv(v):
    th = math.sqrt(sum(x * x for x in v))
    if th < 1e-3:
        return _comb(v, 1, -0.5, 1 / 12 + th * th / 720)
    return _comb(v, 1, -0.5, 1 / th ** 2 - (1 + math.cos(th)) / (2 * th * math.sin(th)))


def _log(M):
    c = max(-1.0, min(1.0, (M[0] + M[4] + M[8] - 1) / 2))
    m = [M[7] - M[5], M[2] - M[6], M[3] - M[1]]
    s = math.sqrt(sum(x * x for x in m)) / 2
    th = math.atan2(s, c)
    if s > 1e-4:
        return [th / (2 * s) * x for x in m]
    if c > 0:
        return [0.5 * x for x in m]
    # near pi: axis from the symmetric part
    d = [M[0], M[4], M[8]]
    k = max(range(3), key=lambda i: d[i])
    ax = [0.0] * 3
    ax[k] = math.sqrt(max(0.0, (d[k] - c) / (1 - c)))
    for j in range(3):
        if j != k:
            ax[j] = (M[3 * k + j] + M[3 * j + k]) / (2 * (1 - c) * ax[k])
    if sum(x * y for x, y in zip(ax, m)) < 0:
        ax = [-x for x in ax]
    return [th * x for x in ax]


# ---------------------------------------------------------------- identity decision
def qr(x):
    """the sign character of F_p: squares are the positive numbers (-1 is not a square)"""
    return x == 0 or pow(x, (P - 1) // 2, P) == 1


_branchy = {}


def branchy(t):
    """whether a root, an angle or a logarithm occurs"""
    r = _branchy.get(t.id)
    if r is None:
        todo = [t]
        while todo:
            x = todo[-1]
            if x.id in _branchy:
                todo.pop()
            elif x.op in ('sqrt', 'acos', 'atan2', 'logso3'):
                _branchy[x.id] = True
                todo.pop()
            else:
                need = [y for y in x.a if y.id not in _branchy]
                if need:
                    todo += need
                else:
                    _branchy[x.id] = any(_branchy[y.id] for y in x.a)
                    todo.pop()
        r = _branchy[t.id]
    return r


def solve_eqs(fp, eqs):
    """moves the point onto the equations t = c (rational t, each linear in a symbol no earlier one determined)"""
    done = set()
    for t, c in eqs:
        nodes = topo([t])
        if any(x.op not in ('const', 'sym', 'add', 'mul', 'neg', 'div') for x in nodes):
            continue
        syms = [x for x in nodes if x.op == 'sym']
        for x in syms:
            fp.symbol(x)

        def at(s, v, other=None):
            val = {}
            for x in nodes:
                o = x.op
                if o == 'const':
                    val[x.id] = frac_p(x.c)
                elif o == 'sym':
                    val[x.id] = v if x is s else (other or fp.symv)[x.id]
                elif o == 'add':
                    val[x.id] = (val[x.a[0].id] + val[x.a[1].id]) % P
                elif o == 'mul':
                    val[x.id] = val[x.a[0].id] * val[x.a[1].id] % P
                elif o == 'neg':
                    val[x.id] = -val[x.a[0].id] % P
                else:
                    if not val[x.a[1].id]:
                        raise Resample
                    val[x.id] = val[x.a[0].id] * inv(val[x.a[1].id]) % P
            return val[t.id]
        for s in reversed(syms):
            if s.c[1] or s.id in fp.units or s.id in done:
                continue
            try:
                v1, v2, v3 = at(s, 1), at(s, 2), at(s, 3)
                oth = {x.id: (fp.symv[x.id] * 7919 + 104729 * (n + 1)) % P for n, x in enumerate(syms)}
                w1, w2 = at(s, 1, oth), at(s, 2, oth)
            except Resample:
                continue
            # the coefficient is a constant: otherwise the points where it vanishes would be left out
            if (v2 - v1 - v3 + v2) % P or v1 == v2 or (v2 - v1 - w2 + w1) % P:
                continue
            k = (v2 - v1) % P
            fp.symv[s.id] = (1 + (frac_p(c) - v1) * inv(k)) % P
            break
        done |= set(x.id for x in syms)


def fp_zero(terms, units=(), trials=10, seed=1, budget=4000, signs=(), eqs=()):
    """True when every term is identically zero (all trials), False when some trial gives a nonzero
    value, None when undecided (not in the theory)."""
    ok = 0
    n = 0
    bad = set()
    while ok < trials and n < 3 * trials:
        # first without the sign conditions and with free roots: enough for most identities
        n += 1
        fp = FP(hash((seed, 7919, n)) & 0xffffffff, units, opaque=True)
        solve_eqs(fp, eqs)
        try:
            if any(fp.run(terms)):
                break
        except Resample:
            continue
        except NotField:
            return None, bad
        ok += 1
    if ok == trials:
        return True, bad
    ok = n = 0
    while ok < trials and n < budget:
        n += 1
        fp = FP(hash((seed, n)) & 0xffffffff, units)
        solve_eqs(fp, eqs)
        try:
            if signs and not all(qr(v if up else (-v) % P) for v, up in zip(fp.run([t for t, _ in signs]), [u for _, u in signs])):
                continue
            vs = fp.run(terms)
        except Resample:
            continue
        except NotField:
            return None, bad
        ok += 1
        for i, v in enumerate(vs):
            if v:
                bad.add(i)
    if ok < trials:
        return None, bad
    return (not bad), bad
