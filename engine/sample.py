"""random real points for terms: satisfiability witnesses and numeric falsification"""
import math, random
import terms as T


class Env(dict):
    """values for symbols, drawn on demand. style controls the magnitude of free symbols"""

    def __init__(self, rng, units, style):
        self.rng, self.units, self.style = rng, units, style
        self.byid = {}
        for u in units:
            for q in u:
                self.byid[q.id] = u

    def draw(self, kind, name):
        r = self.rng
        if kind == 'pos':
            if self.style == 2:
                return float(r.randint(1, 3))
            if self.style in (3, 4):
                return 10 ** r.uniform(-13, 2)
            return math.exp(r.gauss(0, 1.0))
        if kind == 'angle':
            return r.uniform(-math.pi, math.pi)
        s = self.style
        if s == 0:
            return r.gauss(0, 1)
        if s == 1:
            return r.gauss(0, 5)
        if s == 2:
            return float(r.randint(-3, 3))
        if s == 4:
            return r.choice((-1, 1)) * 10 ** r.uniform(-7, 2.5)
        if s == 5:
            return r.gauss(0, 20)
        return r.gauss(0, 0.2)

    def __missing__(self, k):
        t = SYMS[k]
        u = self.byid.get(k)
        if u is not None:
            while True:
                x = [self.rng.gauss(0, 1) for _ in u]
                n = math.sqrt(sum(v * v for v in x))
                if n > 1e-3:
                    break
            for q, v in zip(u, x):
                self[q.id] = v / n
            return self[k]
        v = self.draw(t.c[1], t.c[0])
        self[k] = v
        return v


SYMS = T._all


def holds(v, p, c, tol=0.0):
    c = float(c)
    if v != v:
        return False
    return {'<': v < c - tol, '<=': v <= c + tol, '>': v > c + tol, '>=': v >= c - tol, '==': abs(v - c) <= 1e-12,
            '!=': v != c}[p]


class Pool:
    def __init__(self, units, n=48, seed=7):
        self.units = units
        self.rng = random.Random(seed)
        self.pts = []
        for i in range(n):
            e = Env(self.rng, units, (0, 1, 0, 3)[i % 4])
            self.pts.append(T.FL(e))
        self.nu = len(units)

    def val(self, fl, t):
        v = fl.val.get(t.id)
        if v is None:
            v = fl.run([t])[0]
        return v

    def witness(self, facts, goals):
        """for each goal, whether a pool point satisfies facts and the goal"""
        if self.nu != len(self.units):
            self.__init__(self.units, len(self.pts))
        out = [False] * len(goals)
        try:
            for fl in self.pts:
                if all(holds(self.val(fl, t), p, c) for t, p, c in facts):
                    for i, (t, p, c) in enumerate(goals):
                        if not out[i] and holds(self.val(fl, t), p, c, 1e-9):
                            out[i] = True
                    if all(out):
                        break
        except T.NotField:
            pass
        return out


def viol(v, p, c):
    c = float(c)
    if v != v:
        return 1e6
    if p in ('<', '<='):
        return max(0.0, v - c)
    if p in ('>', '>='):
        return max(0.0, c - v)
    if p == '==':
        return abs(v - c)
    return 0.0


def points(facts, units, n, seed, tries=400, presets=None, styles=(0, 0, 1, 2, 3)):
    """up to n random points (FL evaluators) satisfying the facts; local search towards the facts"""
    rng = random.Random(seed)
    out = []
    syms = {}
    for t, _, _ in facts:
        for x in T.topo([t]):
            if x.op == 'sym':
                syms[x.id] = x
    for k in range(tries):
        if len(out) >= n:
            break
        e = Env(rng, units, rng.choice(styles))
        if presets:
            presets(e, rng)
        fl = T.FL(e)
        try:
            score = sum(viol(v, p, c) for v, (t, p, c) in zip(fl.run([f[0] for f in facts]), facts))
        except T.NotField:
            return out
        it = 0
        step = 1.0
        while score > 0 and it < 300 and syms:
            it += 1
            e2 = Env(rng, units, e.style)
            e2.update(e)
            sid = rng.choice(list(syms))
            t = syms[sid]
            u = e.byid.get(sid)
            if u is not None:
                x = [e[q.id] + rng.gauss(0, step) for q in u]
                nn = math.sqrt(sum(v * v for v in x)) or 1.0
                for q, v in zip(u, x):
                    e2[q.id] = v / nn
            elif t.c[1] == 'pos':
                e2[sid] = e[sid] * (math.exp(rng.gauss(0, step)) if rng.random() < .85 else 10 ** rng.uniform(-8, 3))
            else:
                q = rng.random()
                e2[sid] = (e[sid] + rng.gauss(0, step) if q < .6 else e[sid] * rng.random() if q < .8 else
                           e[sid] * 10 ** -rng.uniform(1, 6) if q < .93 else 0.0)
                if t.c[1] == 'angle' and not -math.pi < e2[sid] <= math.pi:
                    continue
            f2 = T.FL(e2)
            s2 = sum(viol(v, p, c) for v, (tt, p, c) in zip(f2.run([f[0] for f in facts]), facts))
            if s2 <= score:
                e, fl, score = e2, f2, s2
            else:
                step = max(1e-9, step * .8)
        if all(holds(fl.val[t.id], p, c) for t, p, c in facts):
            out.append(fl)
    return out
