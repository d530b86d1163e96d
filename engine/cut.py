"""Cut points: unbounded loops by invariants.

At a cut point (a call of vcut in a contract harness) the symbolic state is generalised: the values the
harness names become fresh symbols, every other real is rewritten in terms of them where it is a function
of them and becomes a fresh symbol where it is not, and all facts are forgotten (the harness states again the ones it may assume). The
generalised state stands for at least the states it came from. A path that arrives in a generalised state
already explored ends there (it is subsumed); otherwise it goes on from the generalised state. Whatever is
proved on the explored segments therefore holds for every number of passes through the cut point."""
import terms as T
from llvmir import UNDEF

NODEF = {'store', 'cbr', 'jmp', 'switch', 'ret', 'resume', 'unreachable', 'fence'}


class Subsumed(Exception):
    pass


def uses(x, out):
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
            out.add(x[1])
            return
        for y in x:
            if isinstance(y, (tuple, list)):
                uses(y, out)


def succs(code):
    for ins in code:
        o = ins[0]
        if o == 'cbr':
            return [ins[2], ins[3]]
        if o == 'jmp':
            return [ins[1]]
        if o == 'switch':
            return list(ins[2].values()) + [ins[3]]
        if o == 'call' and ins[5] is not None:
            return [ins[5], ins[6]]
    return []


def liveness(fn):
    """live-out register sets per block"""
    n = len(fn.blocks)
    gen, kill, su = [], [], []
    for phis, code in fn.blocks:
        g, k = set(), set(d for d, _ in phis)
        for ins in code:
            u = set()
            uses(ins[1:], u)
            g |= u - k
            if ins[0] not in NODEF and isinstance(ins[1], int):
                k.add(ins[1])
        gen.append(g)
        kill.append(k)
        su.append(succs(code))
    pu = []   # pu[b][s]: registers used by phis of s along the edge b->s
    for b in range(n):
        m = {}
        for s in su[b]:
            u = set()
            for d, inc in fn.blocks[s][0]:
                if b in inc:
                    uses([inc[b]], u)
            m[s] = u
        pu.append(m)
    lin = [set(g) for g in gen]
    lout = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in su[b]:
                o |= pu[b][s] | (lin[s] - set(d for d, _ in fn.blocks[s][0]))
            if o != lout[b]:
                lout[b] = o
                lin[b] = gen[b] | (o - kill[b])
                ch = True
    return lout


_live = {}


def live_after(fn, cur, at):
    """registers live after the call instruction `at` of block `cur` (its own result is not available)"""
    k = (id(fn), id(at))
    r = _live.get(k)
    if r is not None:
        return r
    lo = _live.get(id(fn))
    if lo is None:
        lo = _live[id(fn)] = liveness(fn)
    code = fn.blocks[cur][1]
    i = next(j for j, x in enumerate(code) if x is at)
    live = set(lo[cur])
    for ins in reversed(code[i + 1:]):
        if ins[0] not in NODEF and isinstance(ins[1], int):
            live.discard(ins[1])
        uses(ins[1:], live)
    live.discard(at[1])
    _live[k] = live
    return live


class Rewriter:
    def __init__(s, basis, weak, keep, forget=()):
        s.forget = forget
        s.b, s.w, s.keep = basis, weak, keep
        s.memo, s.memo2 = {}, {}
        s.hav = {}
        s.nh = 0

    def expr(s, t, wide=False):
        """t over the basis (wide: and the weak basis), or None"""
        m = s.memo2 if wide else s.memo
        if t.id in m:
            return m[t.id]
        st = [t]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            b = s.b.get(x.id)
            if b is None and wide:
                b = s.w.get(x.id)
            if b is not None:
                m[x.id] = b
                st.pop()
                continue
            if x.op in ('const', 'special'):
                m[x.id] = x
            elif x.op == 'uf' and x.c[0] in s.forget:
                m[x.id] = None
            elif x.op == 'sym':
                m[x.id] = x if x.id in s.keep else None
            else:
                todo = [y for y in x.a if y.id not in m]
                if todo:
                    st.extend(todo)
                    continue
                a = [m[y.id] for y in x.a]
                m[x.id] = None if any(y is None for y in a) else rebuild(x, a)
            st.pop()
        return m[t.id]

    def value(s, t):
        r = s.expr(t)
        if r is None:
            r = s.expr(t, True)
        if r is None:
            r = s.hav.get(t.id)
            if r is None:
                r = s.hav[t.id] = T.sym('h#%d' % s.nh)
                s.nh += 1
        return r


def rebuild(x, a):
    o = x.op
    if all(p is q for p, q in zip(a, x.a)):
        return x
    if o == 'add':
        return T.add(*a)
    if o == 'mul':
        return T.mul(*a)
    if o == 'div':
        return T.div(*a)
    if o == 'neg':
        return T.neg(*a)
    if o == 'sqrt':
        return T.sqrt(*a)
    if o in ('sin', 'cos', 'tan', 'acos'):
        return T.fn1(o, *a)
    return T.mk(o, tuple(a), x.c)


def cut(ex, tag, basis, weak, keep, forget):
    """basis, weak: [(name, addr, n, kind)] memory cells; keep: [(addr, n)]; forget: functions whose values become arbitrary"""
    p = ex.p
    ex.flush(tag)   # the segment up to here is a piece of its own

    def cell(a):
        o, off = ex.chk(a, 8, 'cut')
        v = ex.load_cell(o, off, 8)
        if isinstance(v, int):
            import symex
            v = symex.bits2d(v)
        return v
    bm, wm, kp = {}, {}, set()
    for a, n in keep:
        for i in range(n):
            v = cell(a + 8 * i)
            if isinstance(v, T.T):
                kp.update(x.id for x in T.topo([v]) if x.op == 'sym')
    for lst, m in ((basis, bm), (weak, wm)):
        for name, a, n, kind in lst:
            for i in range(n):
                v = cell(a + 8 * i)
                if isinstance(v, T.T) and v.op not in ('const', 'special') and v.id not in m:
                    m[v.id] = T.sym('%s#%d' % (name, i), kind)
    rw = Rewriter(bm, wm, kp, forget)
    for o in ex.objs:
        if o.ended:
            o.data = {}
    num, queue, out = {}, [], []
    fixed = {'const', 'func'}

    def val(v):
        if v is UNDEF:
            return v, 'u'
        if v is None:
            return v, 'n'
        if isinstance(v, T.T):
            r = rw.value(v)
            return r, ('t', r.id)
        if isinstance(v, tuple):
            q = [val(x) for x in v]
            return tuple(x for x, _ in q), tuple(y for _, y in q)
        if isinstance(v, int):
            if v < 0x10000:
                return v, v
            try:
                o = ex.find(v)
            except Exception:
                return v, v
            off = v - o.base
            if off > o.size + 8:
                return v, v
            if not o.alive:
                return v, 'dangling'
            if o.kind in fixed:
                return v, ('f', o.name, off)
            k = num.get(o.base)
            if k is None:
                k = num[o.base] = len(num)
                queue.append(o)
            return v, ('p', k, off)
        return v, ('x', str(v))

    for o in ex.objs:
        if o.kind == 'global' and o.alive and o.name and o.base not in num:
            num[o.base] = ('g', str(o.name))
            queue.append(o)
    for fn, R, cur, at in ex.frames:
        if at is None:
            continue
        lv = live_after(fn, cur, at)
        out.append((fn.name, cur))
        for k in range(fn.nslots):
            if k not in lv:
                R[k] = UNDEF
            else:
                R[k], tok = val(R[k])
                out.append((k, tok))
    qi = 0
    while qi < len(queue):
        o = queue[qi]
        qi += 1
        out.append((o.size, o.kind, str(o.name) if o.kind == 'global' else ''))
        d = o.data
        for off in sorted(d):
            v, sz = d[off]
            nv, tok = val(v)
            if nv is not v:
                d[off] = (nv, sz)
            out.append((off, sz, tok))
    key = (tag, tuple(out))
    p.facts, p.ranges, p.divs = [], {}, []
    p.free = rw.nh > 0
    me = tuple(x[1] for x in p.decisions)
    first = ex.seen.setdefault(key, me)
    ex.last_key = key
    if first != me:
        raise Subsumed()
