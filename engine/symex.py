"""Path-complete symbolic execution of LLVM IR with concrete control data and symbolic reals.

Doubles are terms (terms.py) over the reals; integers and pointers are concrete (the harnesses make them
so). A comparison of symbolic reals forks; all feasible outcomes are explored by re-execution, so a
harness is decided for all real inputs. Memory is byte-addressed with allocation bounds and lifetime
checked on every access. Calls to functions under contract are replaced by their contract (hooks)."""
import bisect, struct, ctypes as C
import cut
from fractions import Fraction
import llvmir as I
import terms as T
from llvmir import UNDEF, L, OPN


class Unsupported(Exception):
    """outside the fragment: the obligation stays undecided"""


class Fault(Exception):
    """memory error / UB on the path: a genuine failed obligation"""


class Thrown(Exception):
    def __init__(self, ti, obj, what=None):
        self.ti, self.obj, self.what = ti, obj, what


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class Obj:
    __slots__ = ("base", "size", "data", "alive", "kind", "name", "heap_ok", "ended")

    def __init__(self, base, size, kind, name=""):
        self.base, self.size, self.kind, self.name = base, size, kind, name
        self.data = {}
        self.alive = True
        self.ended = False
        self.heap_ok = kind == 'heap'


MASK = {b: (1 << b) - 1 for b in range(1, 129)}


def sx(v, b):
    return v - (1 << b) if v >> (b - 1) & 1 else v


class Program:
    """decoded modules, shared between paths"""

    def __init__(self, modules):
        self.mods = modules
        self.fdef = {}
        self.gdef = {}
        for m in modules:
            for n, f in m.funcs.items():
                if not I.IsDecl(f):
                    self.fdef.setdefault(n, (m, f))
            for n, g in m.globals.items():
                if not I.IsDecl(g):
                    self.gdef.setdefault(n, (m, g))
            for n, a in m.aliases.items():
                tgt = I.name_of(I.AliasGetAliasee(a))
                if tgt in m.funcs and not I.IsDecl(m.funcs[tgt]):
                    self.fdef.setdefault(n, (m, m.funcs[tgt]))
        self.code = {}

    def function(self, name):
        c = self.code.get(name)
        if c is None:
            m, f = self.fdef[name]
            c = self.code[name] = Function(self, m, f, name)
        return c


class Function:
    __slots__ = ("name", "nargs", "blocks", "entry", "nslots", "prog", "mod")

    def __init__(self, prog, m, f, name):
        self.name, self.prog, self.mod = name, prog, m
        slots = {}
        n = I.CountParams(f)
        self.nargs = n
        for i in range(n):
            slots[I.GetParam(f, i)] = i
        bbs = {}
        order = []
        b = I.FirstBB(f)
        while b:
            bbs[b] = len(order)
            order.append(b)
            b = I.NextBB(b)
        # assign slots
        k = n
        insts = []
        for b in order:
            lst = []
            i = I.FirstI(b)
            while i:
                lst.append(i)
                slots[i] = k
                k += 1
                i = I.NextI(i)
            insts.append(lst)
        self.nslots = k

        def opd(v):
            s = slots.get(v)
            if s is not None:
                return ('r', s)
            return const_operand(m, v)

        self.blocks = []
        for bi, lst in enumerate(insts):
            code = []
            phis = []
            for i in lst:
                o = OPN.get(I.Opc(i), '?%d' % I.Opc(i))
                d = slots[i]
                if o == 'phi':
                    inc = {}
                    for x in range(I.CountInc(i)):
                        inc[bbs[I.IncB(i, x)]] = opd(I.IncV(i, x))
                    phis.append((d, inc))
                    continue
                ty = m.ty(I.TypeOf(i))
                if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem',
                         'srem', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                    code.append((o, d, opd(I.Op(i, 0)), opd(I.Op(i, 1)), ty))
                elif o == 'fneg':
                    code.append((o, d, opd(I.Op(i, 0)), ty))
                elif o == 'load':
                    code.append((o, d, opd(I.Op(i, 0)), ty))
                elif o == 'store':
                    code.append((o, d, opd(I.Op(i, 0)), opd(I.Op(i, 1)), m.ty(I.TypeOf(I.Op(i, 0)))))
                elif o == 'gep':
                    code.append((o, d, opd(I.Op(i, 0)), gep_plan(m, i, opd)))
                elif o == 'icmp':
                    code.append((o, d, I.ICmpPred(i), opd(I.Op(i, 0)), opd(I.Op(i, 1)), m.ty(I.TypeOf(I.Op(i, 0)))))
                elif o == 'fcmp':
                    code.append((o, d, I.FCmpPred(i), opd(I.Op(i, 0)), opd(I.Op(i, 1)), m.ty(I.TypeOf(I.Op(i, 0)))))
                elif o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi',
                           'fptoui', 'fptrunc', 'fpext', 'addrspacecast', 'freeze'):
                    code.append(('cast', d, o, opd(I.Op(i, 0)), m.ty(I.TypeOf(I.Op(i, 0))), ty))
                elif o == 'br':
                    if I.IsCond(i):
                        code.append(('cbr', opd(I.CondV(i)), bbs[I.Succ(i, 0)], bbs[I.Succ(i, 1)]))
                    else:
                        code.append(('jmp', bbs[I.Succ(i, 0)]))
                elif o == 'switch':
                    cases = {}
                    nops = I.NumOps(i)
                    for x in range(2, nops, 2):
                        cases[I.ConstInt(I.Op(i, x))] = bbs[I.Op(i, x + 1)]
                    code.append(('switch', opd(I.Op(i, 0)), cases, bbs[I.SwitchDef(i)]))
                elif o == 'ret':
                    code.append(('ret', opd(I.Op(i, 0)) if I.NumOps(i) else None))
                elif o in ('call', 'invoke'):
                    na = I.NumArgs(i)
                    cv = I.CalledV(i)
                    args = [opd(I.Op(i, x)) for x in range(na)]
                    nd = ud = None
                    if o == 'invoke':
                        nd, ud = bbs[I.NormalDest(i)], bbs[I.UnwindDest(i)]
                    vk = I.ValueKind(cv)
                    cname = I.name_of(cv) if vk in (5, 6) else None
                    if vk == 23:
                        cname = '!asm'
                    code.append(('call', d, cname, None if cname else opd(cv), args, nd, ud, ty))
                elif o == 'alloca':
                    at = m.ty(I.AllocTy(i))
                    code.append((o, d, at.size, opd(I.Op(i, 0))))
                elif o == 'select':
                    code.append((o, d, opd(I.Op(i, 0)), opd(I.Op(i, 1)), opd(I.Op(i, 2))))
                elif o == 'extractvalue':
                    ip = I.Idx(i)
                    code.append((o, d, opd(I.Op(i, 0)), [ip[x] for x in range(I.NumIdx(i))]))
                elif o == 'insertvalue':
                    ip = I.Idx(i)
                    code.append((o, d, opd(I.Op(i, 0)), opd(I.Op(i, 1)), [ip[x] for x in range(I.NumIdx(i))], ty))
                elif o == 'extractelement':
                    code.append((o, d, opd(I.Op(i, 0)), opd(I.Op(i, 1))))
                elif o == 'insertelement':
                    code.append((o, d, opd(I.Op(i, 0)), opd(I.Op(i, 1)), opd(I.Op(i, 2)), ty))
                elif o == 'shufflevector':
                    mask = [I.MaskValue(i, x) for x in range(I.NumMaskElems(i))]
                    code.append((o, d, opd(I.Op(i, 0)), opd(I.Op(i, 1)), mask, m.ty(I.TypeOf(I.Op(i, 0))).n))
                elif o == 'landingpad':
                    cl = [opd(I.Clause(i, x)) for x in range(I.NumClauses(i))]
                    code.append((o, d, cl, bool(I.IsCleanup(i))))
                elif o == 'resume':
                    code.append((o, opd(I.Op(i, 0))))
                elif o == 'unreachable':
                    code.append((o,))
                elif o == 'atomicrmw':
                    code.append((o, d, I.RMWOp(i), opd(I.Op(i, 0)), opd(I.Op(i, 1)), ty))
                elif o == 'fence':
                    pass
                else:
                    code.append(('unsupported', o))
            self.blocks.append((phis, code))


def gep_plan(m, i, opd):
    """[(const offset)], [(operand, scale, bits)]"""
    src = m.ty(I.GEPSrcTy(i))
    n = I.NumOps(i)
    off = 0
    dyn = []
    cur = None
    for k in range(1, n):
        v = I.Op(i, k)
        isint = I.ValueKind(v) == 18
        if k == 1:
            sc = src.size
            cur = src
        else:
            if cur.k == 'struct':
                idx = I.ConstInt(v)
                off += cur.offs[idx]
                cur = cur.fields[idx]
                continue
            cur = cur.elem
            sc = cur.size
        if isint:
            b = m.ty(I.TypeOf(v)).bits
            off += sx(I.ConstInt(v), b) * sc
        else:
            dyn.append((opd(v), sc, m.ty(I.TypeOf(v)).bits))
    return off, dyn


def const_operand(m, v):
    """-> ('c', value) or ('g', name, offset) (resolved per run) or ('agg', [...])"""
    k = I.ValueKind(v)
    if k == 18:
        return ('c', I.ConstInt(v)) if m.ty(I.TypeOf(v)).bits <= 64 else ('u', 'wide int')
    if k == 19:
        return ('c', T.const(m.const_real(v)))
    if k == 20:
        return ('c', 0)
    if k in (14, 25):
        return ('c', UNDEF)
    if k == 5:
        return ('f', I.name_of(v))
    if k == 6:
        return ('f', I.name_of(v))
    if k == 8:
        return ('g', m, I.name_of(v), 0)
    if k == 15:
        return ('c', zero_of(m.ty(I.TypeOf(v))))
    if k in (11, 12, 13):
        return ('agg', [const_operand(m, I.Op(v, i)) for i in range(I.NumOps(v))])
    if k in (16, 17):
        t = m.ty(I.TypeOf(v))
        return ('agg', [const_operand(m, I.AggElt(v, i)) for i in range(t.n)])
    if k == 10:
        oc = OPN.get(I.ConstOpc(v))
        if oc == 'gep':
            off, dyn = gep_plan(m, v, lambda x: const_operand(m, x))
            if not dyn:
                return ('off', const_operand(m, I.Op(v, 0)), off)
        if oc in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return const_operand(m, I.Op(v, 0))
        return ('u', 'constexpr %s' % oc)
    if k == 22:
        return ('c', UNDEF)
    if k == 1:
        return ('c', UNDEF)
    return ('u', 'value kind %d' % k)


def zero_of(t):
    if t.k in ('int', 'ptr'):
        return 0
    if t.k == 'double':
        return T.ZERO
    if t.k == 'struct':
        return tuple(zero_of(x) for x in t.fields)
    if t.k in ('array', 'vec'):
        return tuple(zero_of(t.elem) for _ in range(t.n))
    return UNDEF


def d2bits(fr):
    return struct.unpack('<Q', struct.pack('<d', float(fr)))[0]


def bits2d(b):
    return T.const(struct.unpack('<d', struct.pack('<Q', b))[0])


class Path:
    """one execution path"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.choices = []
        self.facts = []        # (pred, term, const) meaning term pred const
        self.ranges = {}       # key -> [lo, lostrict, hi, histrict]
        self.divs = []         # (kind, term) definedness obligations with the facts index
        self.outs = []
        self.notes = []
        self.cuts = self.cutpos = 0
        self.free = False      # after a cut with values no basis explains
        self.status = None


class Exec:
    def __init__(self, prog, hooks=None, max_paths=4000, max_steps=4000000, seed=1, units=None):
        self.prog = prog
        self.hooks = dict(DEFAULT_HOOKS)
        if hooks:
            self.hooks.update(hooks)
        self.max_paths, self.max_steps = max_paths, max_steps
        self.units = units if units is not None else []
        self.fpseed = seed
        self.samememo = {}
        import sample
        self.pool = sample.Pool(self.units)
        self.called = set()
        self.contracts_used = {}
        self.opaque = False

    # ---------- driving
    def explore(self, entry, args=()):
        """all paths of entry; returns list of Path"""
        for attempt in range(300):
            try:
                return self._explore(entry, args)
            except T.Resample:
                self.fpseed += 1
        raise Unsupported("no fingerprint point found")

    def _explore(self, entry, args):
        todo = [[]]
        done = self.done = []
        self.seen, self.flushed, self.nsubsumed = {}, set(), 0
        while todo:
            pre = todo.pop()
            p = Path(self, pre)
            self.newrun(p)
            try:
                self.call(entry, list(args))
                p.status = 'ok'
            except Thrown as e:
                p.status = 'throw'
                p.notes.append(self.tiname(e.ti))
            except Fault as e:
                p.status = 'fault'
                p.notes.append(str(e))
            except Infeasible:
                p.status = 'infeasible'
            except cut.Subsumed:
                p.status = 'subsumed'
            except RecursionError:
                raise Unsupported('recursion')
            for i in range(len(pre), len(p.decisions)):
                d = p.decisions[i]
                if d[2]:
                    nd = [(x[0], x[1]) for x in p.decisions[:i]] + [(d[0], d[3])]
                    todo.append(nd)
            if p.status == 'subsumed':
                self.nsubsumed += 1
            elif p.status != 'infeasible':
                done.append(p)
            if len(done) + len(todo) > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
        return done

    def flush(self, tag):
        """the path up to a cut point becomes a piece of its own"""
        p = self.p
        me = (tag, tuple(x[1] for x in p.decisions))
        q = Path(self, p.prefix)
        q.decisions, q.choices, q.facts, q.ranges = list(p.decisions), list(p.choices), list(p.facts), dict(p.ranges)
        q.divs, q.outs, q.notes, q.status = p.divs, p.outs, list(p.notes), 'ok'
        q.cuts, q.cutpos, q.free = p.cuts, p.cutpos, p.free
        p.outs, p.divs = [], []
        p.cuts += 1
        p.cutpos = len(p.choices)
        if me not in self.flushed:
            self.flushed.add(me)
            self.done.append(q)

    def newrun(self, p):
        self.p = p
        self.frames = []
        self.cutdef = ([], [], [], [])
        self.fp = T.FP(self.fpseed, self.units, opaque=self.opaque)
        self.keys, self.reps = {}, {}
        self.steps = 0
        self.bases = []
        self.objs = []
        self.nextbase = 0x10000
        self.gaddr = {}
        self.faddr = {}
        self.addrf = {}
        self.tids = {}
        self.strings = {}
        self.nsym = 0
        self.depth = 0
        self.live_heap = 0

    # ---------- memory
    def alloc(self, size, kind, name=""):
        b = (self.nextbase + 63) & ~63
        o = Obj(b, size, kind, name)
        self.nextbase = b + size + 64
        self.bases.append(b)
        self.objs.append(o)
        return o

    def find(self, addr):
        i = bisect.bisect_right(self.bases, addr) - 1
        if i < 0:
            raise Fault("null or wild pointer 0x%x" % addr)
        return self.objs[i]

    def chk(self, addr, n, what):
        if addr is UNDEF or not isinstance(addr, int):
            raise Fault(what + " through an undefined pointer")
        o = self.find(addr)
        off = addr - o.base
        if not o.alive:
            raise Fault("%s of %d bytes in freed %s" % (what, n, o.kind))
        if off + n > o.size:
            raise Fault("%s of %d bytes at offset %d outside %s of %d bytes" % (what, n, off, o.kind, o.size))
        return o, off

    def store_cell(self, o, off, size, v):
        d = o.data
        c = d.get(off)
        if c is not None and c[1] == size:
            d[off] = (v, size)
            return
        for k in range(off - 7, off + size):
            c = d.get(k)
            if c is not None and k + c[1] > off:
                del d[k]
                cv, cs = c
                if isinstance(cv, T.T) and cv.op == 'const' and cs == 8:
                    cv = d2bits(cv.c)
                if isinstance(cv, int):
                    for b in range(cs):
                        if not (off <= k + b < off + size):
                            d[k + b] = ((cv >> (8 * b)) & 255, 1)
        d[off] = (v, size)

    def load_cell(self, o, off, size):
        d = o.data
        c = d.get(off)
        if c is not None and c[1] == size:
            return c[0]
        # compose from bytes
        v = 0
        got = 0
        b = 0
        while b < size:
            c = None
            for k in range(off + b, off + b - 8, -1):
                c = d.get(k)
                if c is not None:
                    break
            if c is None or k + c[1] <= off + b:
                return UNDEF
            cv = c[0]
            if isinstance(cv, T.T) and cv.op == 'const' and c[1] == 8:
                cv = d2bits(cv.c)
            if not isinstance(cv, int):
                return UNDEF
            v |= ((cv >> (8 * (off + b - k))) & 255) << (8 * b)
            b += 1
        return v

    def load(self, addr, ty):
        k = ty.k
        if k in ('int', 'ptr', 'double', 'float'):
            n = 4 if k == 'float' else 8 if k != 'int' else (ty.bits + 7) // 8
            o, off = self.chk(addr, n, "load")
            v = self.load_cell(o, off, n)
            if k == 'double':
                if isinstance(v, int):
                    v = bits2d(v)
            elif isinstance(v, T.T):
                if v.op == 'const':
                    v = d2bits(v.c)
            elif k == 'int' and isinstance(v, int) and ty.bits < 8 * n:
                v &= MASK[ty.bits]
            return v
        if k == 'vec' or k == 'array':
            return tuple(self.load(addr + i * ty.elem.size, ty.elem) for i in range(ty.n))
        if k == 'struct':
            return tuple(self.load(addr + ty.offs[i], ty.fields[i]) for i in range(ty.n))
        raise Unsupported('load of ' + k)

    def store(self, addr, v, ty):
        k = ty.k
        if k in ('int', 'ptr', 'double', 'float'):
            n = 4 if k == 'float' else 8 if k != 'int' else (ty.bits + 7) // 8
            o, off = self.chk(addr, n, "store")
            if o.kind == 'const':
                raise Fault("store to constant memory")
            self.store_cell(o, off, n, v)
            return
        if k == 'vec' or k == 'array':
            for i in range(ty.n):
                self.store(addr + i * ty.elem.size, v[i] if v is not UNDEF else UNDEF, ty.elem)
            return
        if k == 'struct':
            for i in range(ty.n):
                self.store(addr + ty.offs[i], v[i] if v is not UNDEF else UNDEF, ty.fields[i])
            return
        raise Unsupported('store of ' + k)

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        so, soff = self.chk(src, n, "memcpy read")
        do, doff = self.chk(dst, n, "memcpy write")
        cells = []
        b = 0
        while b < n:
            c = so.data.get(soff + b)
            if c is not None and b + c[1] <= n:
                cells.append((b, c[1], c[0]))
                b += c[1]
            else:
                v = self.load_cell(so, soff + b, 1)
                cells.append((b, 1, v))
                b += 1
        for b, s, v in cells:
            if v is UNDEF and s == 1:
                # keep undefined: drop whatever was there
                self.store_cell(do, doff + b, 1, UNDEF)
            else:
                self.store_cell(do, doff + b, s, v)

    def memset(self, dst, val, n):
        if n == 0:
            return
        do, doff = self.chk(dst, n, "memset")
        b = 0
        val &= 255
        w = int.from_bytes(bytes([val]) * 8, 'little')
        while b < n:
            if (doff + b) % 8 == 0 and b + 8 <= n:
                self.store_cell(do, doff + b, 8, w)
                b += 8
            elif (doff + b) % 4 == 0 and b + 4 <= n:
                self.store_cell(do, doff + b, 4, w & 0xffffffff)
                b += 4
            else:
                self.store_cell(do, doff + b, 1, val)
                b += 1

    def gptr(self, m, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        d = self.prog.gdef.get(name)
        g = m.globals.get(name)
        key = name
        if g is not None and not I.IsDecl(g) and I.GetLinkage(g) in (8, 9):  # internal/private
            key = (id(m), name)
            a = self.gaddr.get(key)
            if a is not None:
                return a
            d = (m, g)
        if d is None:
            o = self.alloc(4096, 'global', name)   # external object: opaque
            self.gaddr[key] = o.base
            if name == '__libc_single_threaded':
                o.data[0] = (1, 1)
            return o.base
        m2, g2 = d
        ty = m2.ty(I.GlobalValueType(g2))
        o = self.alloc(ty.size, 'global', name)
        self.gaddr[key] = o.base
        init = I.GetInit(g2)
        if init:
            self.init_mem(o.base, m2, init, ty)
        if I.IsConstG(g2):
            o.kind = 'const'
        return o.base

    def init_mem(self, addr, m, v, ty):
        k = ty.k
        vk = I.ValueKind(v)
        if vk == 15:
            self.memset(addr, 0, ty.size)
            return
        if k == 'struct':
            for i in range(ty.n):
                self.init_mem(addr + ty.offs[i], m, I.AggElt(v, i), ty.fields[i])
            return
        if k in ('array', 'vec'):
            for i in range(ty.n):
                self.init_mem(addr + i * ty.elem.size, m, I.AggElt(v, i), ty.elem)
            return
        self.store(addr, self.cval(const_operand(m, v)), ty)

    def fptr(self, name):
        a = self.faddr.get(name)
        if a is None:
            o = self.alloc(16, 'func', name)
            a = self.faddr[name] = o.base
            self.addrf[a] = name
        return a

    def tiname(self, a):
        for k, v in self.gaddr.items():
            if v == a:
                return k if isinstance(k, str) else k[1]
        return '?'

    def cval(self, c):
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'g':
            return self.gptr(c[1], c[2])
        if k == 'f':
            return self.fptr(c[1])
        if k == 'off':
            return (self.cval(c[1]) + c[2]) & MASK[64]
        if k == 'agg':
            return tuple(self.cval(x) for x in c[1])
        raise Unsupported(c[1])

    # ---------- reals
    def fresh(self, name, kind=''):
        self.nsym += 1
        return T.sym(name, kind)

    def key(self, t):
        k = self.keys.get(t.id)
        if k is None:
            k = self.keys[t.id] = self._key(t)
        return k

    def _key(self, t):
        try:
            v = self.fp.ev(t)
        except T.NotField:
            return ('n', t.id)
        # a single point does not tell x from |x|: terms with roots or principal branches must pass more of them
        reps = self.reps.setdefault(v, [])
        for i, r in enumerate(reps):
            if not T.branchy(r) and not T.branchy(t) or self.same(r, t):
                return (v, i)
        reps.append(t)
        return (v, len(reps) - 1)

    def same(self, r, t):
        k = (r.id, t.id)
        ok = self.samememo.get(k)
        if ok is None:
            ok = self.samememo[k] = T.fp_zero([T.sub(r, t)], self.units, trials=12, seed=5)[0] is True
        return ok

    def rng(self, t):
        r = self.p.ranges.get(self.key(t))
        return r

    def interval(self, t, depth=24):
        """(lo, lostrict, hi, histrict) with None = unbounded; uses facts and structure"""
        if t.op == 'const':
            return (t.c, False, t.c, False)
        lo, ls, hi, hs = None, False, None, False
        if depth > 0:
            op = t.op
            if op == 'sqrt':
                a = self.interval(t.a[0], depth - 1)
                lo, ls = Fraction(0), (a[0] is not None and (a[0] > 0 or a[0] == 0 and a[1]))
                if a[2] is not None and a[2] >= 0:
                    r = T._isqrt_frac(a[2])
                    if r is not None:
                        hi, hs = r, a[3]
                if a[0] is not None and a[0] > 0:
                    r = T._isqrt_frac(a[0])
                    if r is not None:
                        lo, ls = r, a[1]
            elif op == 'mul':
                if t.a[0] is t.a[1]:
                    a = self.interval(t.a[0], depth - 1)
                    lo, ls = Fraction(0), False
                    if a[0] is not None and a[0] >= 0:
                        lo, ls = a[0] ** 2, a[1]
                        if a[2] is not None:
                            hi, hs = a[2] ** 2, a[3]
                    elif a[2] is not None and a[2] <= 0:
                        lo, ls = a[2] ** 2, a[3]
                    elif a[0] is not None and a[2] is not None:
                        hi = max(a[0] ** 2, a[2] ** 2)
                else:
                    a = self.interval(t.a[0], depth - 1)
                    b = self.interval(t.a[1], depth - 1)
                    lo, ls, hi, hs = imul(a, b)
            elif op == 'add':
                a = self.interval(t.a[0], depth - 1)
                b = self.interval(t.a[1], depth - 1)
                if a[0] is not None and b[0] is not None:
                    lo, ls = a[0] + b[0], a[1] or b[1]
                if a[2] is not None and b[2] is not None:
                    hi, hs = a[2] + b[2], a[3] or b[3]
            elif op == 'neg':
                a = self.interval(t.a[0], depth - 1)
                if a[2] is not None:
                    lo, ls = -a[2], a[3]
                if a[0] is not None:
                    hi, hs = -a[0], a[1]
            elif op == 'div':
                a = self.interval(t.a[0], depth - 1)
                b = self.interval(t.a[1], depth - 1)
                if b[0] is not None and b[0] >= 0 and (b[0] > 0 or b[1]):
                    ib = (1 / b[2] if b[2] is not None else Fraction(0), True if b[2] is None else b[3],
                          1 / b[0] if b[0] > 0 else None, b[1])
                    lo, ls, hi, hs = imul(a, ib)
            elif op == 'sym':
                if t.c[1] == 'pos':
                    lo, ls = Fraction(0), True
                elif t.c[1] == 'angle':
                    lo, hi = -PI_UP, PI_UP
            elif op == 'uf':
                if t.c[2] == 1:
                    lo, ls = Fraction(0), True
            elif op in ('sin', 'cos', 'expso3'):
                lo, hi = Fraction(-1), Fraction(1)
            elif op == 'acos':
                lo, hi = Fraction(0), PI_UP
            elif op == 'atan2':
                lo, hi = -PI_UP, PI_UP
                y, x = (self.interval(a, depth - 1) for a in t.a)
                if x[0] is not None and x[0] >= 0:
                    lo, hi = -PI_UP / 2, PI_UP / 2
                if y[0] is not None and y[0] >= 0:
                    lo = Fraction(0)
        for tt, sg in ((t, 1), (T.neg(t), -1)):
            r = self.rng(tt)
            if r is None:
                continue
            if sg < 0:
                r = (-r[2] if r[2] is not None else None, r[3], -r[0] if r[0] is not None else None, r[1])
            if r[0] is not None and (lo is None or r[0] > lo or (r[0] == lo and r[1])):
                lo, ls = r[0], r[1]
            if r[2] is not None and (hi is None or r[2] < hi or (r[2] == hi and r[3])):
                hi, hs = r[2], r[3]
        return (lo, ls, hi, hs)

    def assume(self, t, pred, c):
        """record term t pred const c ('<','<=','>','>=','==')"""
        if t.op == 'const':
            ok = {'<': t.c < c, '<=': t.c <= c, '>': t.c > c, '>=': t.c >= c, '==': t.c == c}[pred]
            if not ok:
                raise Infeasible()
            return
        self.p.facts.append((t, pred, Fraction(c)))
        todo = [(t, pred, Fraction(c))]
        while todo:
            t, pred, c = todo.pop()
            k = self.key(t)
            r = list(self.p.ranges.get(k) or (None, False, None, False))
            if pred in ('<', '<=', '=='):
                s = pred == '<'
                if r[2] is None or c < r[2] or (c == r[2] and s):
                    r[2], r[3] = c, s
            if pred in ('>', '>=', '=='):
                s = pred == '>'
                if r[0] is None or c > r[0] or (c == r[0] and s):
                    r[0], r[1] = c, s
            self.p.ranges[k] = tuple(r)
            # propagate through simple shapes
            if t.op == 'sqrt' and c >= 0:
                todo.append((t.a[0], pred, c * c))
            elif t.op == 'neg':
                todo.append((t.a[0], {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[pred], -c))
            elif t.op == 'mul' and t.a[0].op == 'const' and t.a[0].c != 0:
                f = t.a[0].c
                todo.append((t.a[1], pred if f > 0 else FLIP[pred], c / f))
            elif t.op == 'mul' and t.a[1].op == 'const' and t.a[1].c != 0:
                f = t.a[1].c
                todo.append((t.a[0], pred if f > 0 else FLIP[pred], c / f))
            elif t.op == 'mul' and t.a[0] is not t.a[1] and pred in ('>', '>=') and c >= 0 and (c > 0 or pred == '>'):
                # a product of nonnegative factors is positive
                if all((lambda b: b[0] is not None and b[0] >= 0)(self.interval(f, 6)) for f in t.a):
                    todo += [(f, '>', Fraction(0)) for f in t.a]
            elif t.op == 'mul' and t.a[0] is t.a[1] and pred in ('<', '<=') and c > 0:
                q = T._isqrt_frac(c)
                if q is not None:
                    todo.append((t.a[0], pred, q))
                    todo.append((t.a[0], FLIP[pred], -q))
            elif t.op == 'add' and t.a[0].op == 'const':
                todo.append((t.a[1], pred, c - t.a[0].c))
            elif t.op == 'add' and t.a[1].op == 'const':
                todo.append((t.a[0], pred, c - t.a[1].c))
            elif t.op == 'add' and pred != '==':
                for u, v in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if v.op in ('sym', 'uf', 'neg', 'sqrt') and u.op in ('sym', 'uf', 'neg', 'sqrt'):
                        b = self.interval(v, 6)
                        if pred in ('>', '>=') and b[2] is not None:
                            todo.append((u, '>' if pred == '>' or b[3] else '>=', c - b[2]))
                        elif pred in ('<', '<=') and b[0] is not None:
                            todo.append((u, '<' if pred == '<' or b[1] else '<=', c - b[0]))
            elif t.op == 'div' and pred != '==' :
                # positive denominator
                b = self.interval(t.a[1], 12)
                if c == 0 and b[0] is not None and b[0] >= 0 and (b[0] > 0 or b[1]):
                    todo.append((t.a[0], pred, c))
                elif t.a[0].op == 'const' and t.a[0].c > 0 and c > 0 and b[0] is not None and b[0] >= 0:
                    todo.append((t.a[1], FLIP[pred], t.a[0].c / c))

    def decide(self, a, pred, b):
        """truth of a pred b for reals, forking when both outcomes remain possible"""
        if T.isspecial(a) or T.isspecial(b):
            return self.decide_special(a, pred, b)
        if a.op == 'const' and b.op == 'const':
            x, y = a.c, b.c
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y}[pred]
        if a.op == 'sqrt' and b.op == 'sqrt':
            a, b = a.a[0], b.a[0]
        if b.op == 'const':
            t, c = a, b.c
        elif a.op == 'const':
            t, c, pred = b, a.c, FLIP[pred]
        else:
            t, c = T.sub(a, b), Fraction(0)
        if t.op == 'const':
            x = t.c
            return {'<': x < c, '<=': x <= c, '>': x > c, '>=': x >= c, '==': x == c}[pred]
        # constant in disguise?
        k = self.key(t)
        for cc in (c, 0, 1, -1):
            x = Fraction(cc)
            if k[0] == T.frac_p(x) and (not T.branchy(t) or self.same(t, T.const(x))):
                # t is constant: it agrees with the constant at one random point, or at twelve where roots are involved
                return {'<': x < c, '<=': x <= c, '>': x > c, '>=': x >= c, '==': x == c}[pred]
        lo, ls, hi, hs = self.interval(t)
        if pred in ('<', '<='):
            if hi is not None and (hi < c or hi == c and (hs or pred == '<=')):
                return True
            if lo is not None and (lo > c or lo == c and (ls or pred == '<')):
                return False
        elif pred in ('>', '>='):
            if lo is not None and (lo > c or lo == c and (ls or pred == '>=')):
                return True
            if hi is not None and (hi < c or hi == c and (hs or pred == '>')):
                return False
        else:
            if lo is not None and (lo > c or lo == c and ls) or hi is not None and (hi < c or hi == c and hs):
                return False
        p = self.p
        i = len(p.decisions)
        if i < len(p.prefix):
            val = p.prefix[i][1]
            p.decisions.append((k, val, False, None))
        else:
            import nra
            neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!='}[pred]
            wn, wp = self.pool.witness(p.facts, [(t, neg, c), (t, pred, c)])
            if not wn and nra.infeasible(p.facts, (t, neg, c), self.units):
                val, alt = True, False
            elif not wp and nra.infeasible(p.facts, (t, pred, c), self.units):
                val, alt = False, False
            else:
                val, alt = True, True
            p.decisions.append((k, val, alt, False))
        if pred == '==':
            if val:
                self.assume(t, '==', c)
            else:
                p.notes.append(('ne', t, c))
                p.facts.append((t, '!=', Fraction(c)))
        else:
            self.assume(t, pred if val else {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[pred], c)
        return val

    def decide_special(self, a, pred, b):
        if a is T.NAN or b is T.NAN:
            return False
        va = {'inf': 1, '-inf': -1}.get(a.c, 0) if T.isspecial(a) else 0
        vb = {'inf': 1, '-inf': -1}.get(b.c, 0) if T.isspecial(b) else 0
        return {'<': va < vb, '<=': va <= vb, '>': va > vb, '>=': va >= vb, '==': va == vb}[pred]

    def choose(self, n, tag):
        """nondeterministic choice 0..n-1 (all explored)"""
        p = self.p
        for v in range(n - 1):
            i = len(p.decisions)
            if i < len(p.prefix):
                val = p.prefix[i][1]
                p.decisions.append((tag, val, False, None))
            else:
                val = True
                p.decisions.append((tag, True, True, False))
            if val:
                p.choices.append(v)
                return v
        p.choices.append(n - 1)
        return n - 1

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF or not isinstance(a, T.T) or not isinstance(b, T.T):
            raise Fault("comparison of an undefined double")
        nan = a is T.NAN or b is T.NAN
        if a.op == 'div0' or b.op == 'div0':
            raise Fault('comparison after division by zero')
        if pred == 0:
            return 0
        if pred == 15:
            return 1
        if pred == 7:
            return 0 if nan else 1
        if pred == 8:
            return 1 if nan else 0
        if nan:
            return 1 if pred >= 8 else 0
        pr = {1: '==', 2: '>', 3: '>=', 4: '<', 5: '<=', 6: '!=', 9: '==', 10: '>', 11: '>=', 12: '<', 13: '<=',
              14: '!='}[pred]
        if pr == '!=':
            return 0 if self.decide(a, '==', b) else 1
        return 1 if self.decide(a, pr, b) else 0

    # ---------- execution
    def call(self, name, args):
        h = self.hooks.get(name)
        if h is None and name.startswith('llvm.'):
            h = intrinsic(name)
        if h is None:
            for pre, hh in PREFIX_HOOKS:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            return h(self, args, name)
        if name not in self.prog.fdef:
            raise Unsupported("external function " + name)
        self.called.add(name)
        return self.run(self.prog.function(name), args)

    def run(self, fn, args):
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("call depth")
        stack_objs = []
        try:
            return self._run(fn, args, stack_objs)
        finally:
            self.depth -= 1
            self.frames.pop()
            for o in stack_objs:
                o.alive = False

    def _run(self, fn, args, stack_objs):
        R = [UNDEF] * fn.nslots
        R[:len(args)] = args
        frame = [fn, R, 0, None]
        self.frames.append(frame)
        blocks = fn.blocks
        cur, prev = 0, -1
        cval = self.cval

        def V(o):
            return R[o[1]] if o[0] == 'r' else (o[1] if o[0] == 'c' else cval(o))

        while True:
            phis, code = blocks[cur]
            if phis:
                vals = [V(inc[prev]) for d, inc in phis]
                for (d, inc), v in zip(phis, vals):
                    R[d] = v
            self.steps += len(code)
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            nxt = None
            for ins in code:
                o = ins[0]
                if o == 'load':
                    R[ins[1]] = self.load(V(ins[2]), ins[3])
                elif o == 'gep':
                    off, dyn = ins[3]
                    b = V(ins[2])
                    for od, sc, bits in dyn:
                        x = V(od)
                        if x is UNDEF:
                            b = UNDEF
                            break
                        off += sx(x, bits) * sc
                    if b is UNDEF:
                        R[ins[1]] = UNDEF
                    elif isinstance(b, int):
                        R[ins[1]] = (b + off) & 0xffffffffffffffff
                    else:
                        raise Unsupported('vector gep')
                elif o == 'store':
                    self.store(V(ins[3]), V(ins[2]), ins[4])
                elif o in ('fadd', 'fsub', 'fmul', 'fdiv'):
                    R[ins[1]] = self.farith(o, V(ins[2]), V(ins[3]), ins[4])
                elif o == 'call':
                    _, d, cname, cop, cargs, nd, ud, ty = ins
                    av = [V(x) for x in cargs]
                    frame[2], frame[3] = cur, ins
                    if cname is None:
                        a = V(cop)
                        cname = self.addrf.get(a)
                        if cname is None:
                            raise Fault("call through a wild pointer")
                    if nd is None:
                        R[d] = self.call(cname, av)
                    else:
                        try:
                            R[d] = self.call(cname, av)
                            nxt = nd
                        except Thrown as e:
                            nxt = ud
                            self.exc = e
                        break
                elif o == 'cbr':
                    c = V(ins[1])
                    if c is UNDEF:
                        raise Fault("branch on an undefined value in " + fn.name)
                    nxt = ins[2] if c else ins[3]
                    break
                elif o == 'jmp':
                    nxt = ins[1]
                    break
                elif o == 'icmp':
                    R[ins[1]] = self.icmp(ins[2], V(ins[3]), V(ins[4]), ins[5])
                elif o == 'fcmp':
                    if ins[5].k == 'vec':
                        R[ins[1]] = tuple(self.fcmp(ins[2], x, y) for x, y in zip(V(ins[3]), V(ins[4])))
                    else:
                        R[ins[1]] = self.fcmp(ins[2], V(ins[3]), V(ins[4]))
                elif o == 'fneg':
                    a = V(ins[2])
                    if isinstance(a, tuple):
                        R[ins[1]] = tuple(T.neg(x) for x in a)
                    elif a is UNDEF:
                        R[ins[1]] = UNDEF
                    else:
                        R[ins[1]] = T.neg(a)
                elif o in INTOPS:
                    a, b, ty = V(ins[2]), V(ins[3]), ins[4]
                    if ty.k == 'vec':
                        R[ins[1]] = tuple(self.iop(o, x, y, ty.elem.bits) for x, y in zip(a, b))
                    else:
                        R[ins[1]] = self.iop(o, a, b, ty.bits)
                elif o == 'cast':
                    R[ins[1]] = self.cast(ins[2], V(ins[3]), ins[4], ins[5])
                elif o == 'alloca':
                    n = V(ins[3])
                    ob = self.alloc(ins[2] * n, 'stack', fn.name)
                    stack_objs.append(ob)
                    R[ins[1]] = ob.base
                elif o == 'select':
                    c = V(ins[2])
                    if isinstance(c, tuple):
                        R[ins[1]] = tuple(x if cc else y for cc, x, y in zip(c, V(ins[3]), V(ins[4])))
                    elif c is UNDEF:
                        raise Fault("select on an undefined value")
                    else:
                        R[ins[1]] = V(ins[3]) if c else V(ins[4])
                elif o == 'ret':
                    return V(ins[1]) if ins[1] is not None else None
                elif o == 'extractvalue':
                    v = V(ins[2])
                    for i in ins[3]:
                        v = v[i] if v is not UNDEF else UNDEF
                    R[ins[1]] = v
                elif o == 'insertvalue':
                    R[ins[1]] = insval(V(ins[2]), V(ins[3]), ins[4], ins[5])
                elif o == 'extractelement':
                    R[ins[1]] = V(ins[2])[V(ins[3])]
                elif o == 'insertelement':
                    v = V(ins[2])
                    v = list(v) if isinstance(v, tuple) else [UNDEF] * ins[5].n
                    v[V(ins[4])] = V(ins[3])
                    R[ins[1]] = tuple(v)
                elif o == 'shufflevector':
                    a, b, mask, n = V(ins[2]), V(ins[3]), ins[4], ins[5]
                    a = a if isinstance(a, tuple) else (UNDEF,) * n
                    b = b if isinstance(b, tuple) else (UNDEF,) * n
                    ab = a + b
                    R[ins[1]] = tuple(ab[x] if 0 <= x < len(ab) else UNDEF for x in mask)
                elif o == 'switch':
                    v = V(ins[1])
                    if v is UNDEF:
                        raise Fault("switch on an undefined value")
                    nxt = ins[2].get(v, ins[3])
                    break
                elif o == 'landingpad':
                    R[ins[1]] = self.landing(ins[2], ins[3], V)
                    if R[ins[1]] is None:
                        raise self.exc
                elif o == 'resume':
                    raise self.exc_of(V(ins[1]))
                elif o == 'atomicrmw':
                    a = V(ins[3])
                    old = self.load(a, ins[5])
                    x = V(ins[4])
                    op = {0: lambda: x, 1: lambda: old + x, 2: lambda: old - x, 3: lambda: old & x,
                          5: lambda: old | x, 6: lambda: old ^ x}.get(ins[2])
                    if op is None:
                        raise Unsupported('atomicrmw')
                    self.store(a, op() & MASK[ins[5].bits], ins[5])
                    R[ins[1]] = old
                elif o == 'unreachable':
                    raise Fault("unreachable executed in " + fn.name)
                else:
                    raise Unsupported("instruction %s in %s" % (ins, fn.name))
            if nxt is None:
                raise Unsupported("fell off a block")
            prev, cur = cur, nxt

    def exc_of(self, v):
        e = self.excs.get(v[0]) if hasattr(self, 'excs') else None
        return e if e is not None else self.exc

    def landing(self, clauses, cleanup, V):
        e = self.exc
        if not hasattr(self, 'excs'):
            self.excs = {}
        self.excs[e.obj] = e
        for c in clauses:
            v = V(c)
            if v == 0:
                return (e.obj, 1 if 0 not in self.tids else self.tids[0])
            if self.ti_match(e.ti, v):
                return (e.obj, self.tid(v))
        if cleanup:
            return (e.obj, 0)
        return None

    def tid(self, a):
        if a not in self.tids:
            self.tids[a] = len(self.tids) + 1
        return self.tids[a]

    def ti_match(self, thrown, catch):
        if thrown == catch:
            return True
        cn, tn = self.tiname(catch), self.tiname(thrown)
        if cn == '_ZTISt9exception':
            return True
        if cn == '_ZTISt13runtime_error':
            return tn in ('_ZTISt11range_error', '_ZTISt14overflow_error', '_ZTISt15underflow_error')
        if cn == '_ZTISt11logic_error':
            return tn in ('_ZTISt16invalid_argument', '_ZTISt12out_of_range', '_ZTISt12length_error',
                          '_ZTISt12domain_error')
        return False

    def farith(self, o, a, b, ty):
        if ty.k == 'vec':
            return tuple(self.farith(o, x, y, ty.elem) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, int):
            a = bits2d(a)
        if isinstance(b, int):
            b = bits2d(b)
        if o == 'fadd':
            return T.add(a, b)
        if o == 'fsub':
            return T.sub(a, b)
        if o == 'fmul':
            return T.mul(a, b)
        if b.op != 'const' and not T.isspecial(b) and not T.isspecial(a):
            self.p.divs.append(('nz', b, len(self.p.facts)))
        r = T.div(a, b)
        if b.op == 'const' and b.c == 0:
            self.p.divs.append(('nz', b, len(self.p.facts)))
        return r

    def fsqrt(self, a):
        if a is UNDEF:
            return UNDEF
        if a.op != 'const' and not T.isspecial(a):
            self.p.divs.append(('ge0', a, len(self.p.facts)))
        return T.sqrt(a)

    def icmp(self, pred, a, b, ty):
        if ty.k == 'vec':
            return tuple(self.icmp(pred, x, y, ty.elem) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, T.T) or isinstance(b, T.T):
            raise Unsupported("integer comparison of the bits of a symbolic double")
        bits = ty.bits
        if pred == 32:
            return int(a == b)
        if pred == 33:
            return int(a != b)
        if pred >= 38:
            a, b = sx(a, bits), sx(b, bits)
        p = (pred - 34) % 4
        return int((a > b, a >= b, a < b, a <= b)[p])

    def iop(self, o, a, b, bits):
        if a is UNDEF or b is UNDEF:
            if o == 'and' and (a == 0 or b == 0):
                return 0
            return UNDEF
        if isinstance(a, T.T) or isinstance(b, T.T):
            raise Unsupported("integer arithmetic on the bits of a symbolic double")
        m = MASK[bits]
        if o == 'add':
            return (a + b) & m
        if o == 'sub':
            return (a - b) & m
        if o == 'mul':
            return (a * b) & m
        if o == 'and':
            return a & b
        if o == 'or':
            return a | b
        if o == 'xor':
            return a ^ b
        if o == 'shl':
            return (a << b) & m
        if o == 'lshr':
            return a >> b
        if o == 'ashr':
            return (sx(a, bits) >> b) & m
        if b == 0:
            raise Fault("integer division by zero")
        if o == 'udiv':
            return a // b
        if o == 'urem':
            return a % b
        x, y = sx(a, bits), sx(b, bits)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q & m) if o == 'sdiv' else ((x - q * y) & m)

    def cast(self, o, v, f, t):
        if isinstance(v, tuple):
            if t.k == 'vec' and len(v) == t.n:
                return tuple(self.cast(o, x, f.elem, t.elem) for x in v)
            raise Unsupported('vector cast')
        if v is UNDEF:
            return UNDEF
        if o in ('ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return v
        if o == 'trunc':
            if isinstance(v, T.T):
                raise Unsupported('trunc of double bits')
            return v & MASK[t.bits]
        if o == 'zext':
            return v
        if o == 'sext':
            return sx(v, f.bits) & MASK[t.bits]
        if o == 'bitcast':
            if t.k == 'double' and isinstance(v, int):
                return bits2d(v)
            return v
        if o == 'sitofp':
            return T.const(sx(v, f.bits))
        if o == 'uitofp':
            return T.const(v)
        if o in ('fptosi', 'fptoui'):
            if v.op == 'const':
                return int(v.c) & MASK[t.bits]
            q = closed(v)
            if q is not None:
                return q & MASK[t.bits]
            raise Unsupported('double to int of a symbolic value')
        raise Unsupported(o)


def imul(a, b):
    """interval product (None = unbounded); conservative on strictness"""
    al, als, ah, ahs = a
    bl, bls, bh, bhs = b
    # both nonnegative
    if al is not None and bl is not None and al >= 0 and bl >= 0:
        lo = al * bl
        ls = (als or bls) if lo > 0 else ((al > 0 or als) and (bl > 0 or bls))
        hi = ah * bh if ah is not None and bh is not None else None
        return lo, ls, hi, (ahs or bhs) if hi else False
    if al is not None and bh is not None and al >= 0 and bh <= 0:
        r = imul(a, (-bh, bhs, -bl if bl is not None else None, bls))
        return (-r[2] if r[2] is not None else None, r[3], -r[0], r[1])
    if bl is not None and ah is not None and bl >= 0 and ah <= 0:
        return imul(b, a)
    if None not in (al, ah, bl, bh):
        c = [al * bl, al * bh, ah * bl, ah * bh]
        return min(c), False, max(c), False
    return None, False, None, False


FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}
PI_UP = Fraction("3.1415926535897935")
INTOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}


def insval(v, x, idx, ty):
    if v is UNDEF:
        v = tuple(UNDEF for _ in range(ty.n))
    v = list(v)
    i = idx[0]
    v[i] = x if len(idx) == 1 else insval(v[i], x, idx[1:], ty.fields[i] if ty.k == 'struct' else ty.elem)
    return tuple(v)


# ---------------------------------------------------------------- library contracts
def _h_malloc(ex, a, n):
    ex.live_heap += 1
    return ex.alloc(a[0], 'heap', n).base


def _h_calloc(ex, a, n):
    o = ex.alloc(a[0] * a[1], 'heap', n)
    ex.memset(o.base, 0, a[0] * a[1])
    return o.base


def _h_free(ex, a, n):
    p = a[0]
    if p == 0:
        return
    if p is UNDEF:
        raise Fault("free of an undefined pointer")
    o = ex.find(p)
    if o.base != p or o.kind != 'heap':
        raise Fault("free of a non-heap pointer")
    if not o.alive:
        raise Fault("double free")
    o.alive = False
    ex.live_heap -= 1


def _h_realloc(ex, a, n):
    o = ex.alloc(a[1], 'heap', n)
    if a[0]:
        old = ex.find(a[0])
        ex.memcpy(o.base, a[0], min(old.size, a[1]))
        old.alive = False
    return o.base


def _cstr(ex, p):
    o, off = ex.chk(p, 1, 'string')
    s = bytearray()
    while True:
        v = ex.load_cell(o, off, 1)
        if v is UNDEF or not isinstance(v, int):
            raise Unsupported('string bytes')
        if v == 0:
            return bytes(s)
        s.append(v)
        off += 1


def closed(t):
    """truncation of a value without symbols (a root of a number), or None"""
    if any(x.op not in ('const', 'add', 'mul', 'neg', 'div', 'sqrt') for x in T.topo([t])):
        return None
    import mp
    e = object.__new__(mp.MP)
    e.val, e.env = {}, {}
    v = e.run([t])[0]
    if abs(v - mp.mpmath.nint(v)) < mp.M(10) ** -30:
        return None
    return int(v)


def _sig(f):
    return lambda ex, a, n: f(a[0]) if isinstance(a[0], T.T) else UNDEF


def _h_fabs(ex, a, n):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    if isinstance(x, tuple):
        return tuple(_h_fabs(ex, (y,), n) for y in x)
    if x is T.NAN:
        return x
    if T.isspecial(x):
        return T.INF
    if x.op == 'const':
        return T.const(abs(x.c))
    if x.op == 'sqrt':
        return x
    lo, ls, hi, hs = ex.interval(x)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return T.neg(x)
    return T.sqrt(T.mul(x, x) if x.op != 'neg' else T.mul(x.a[0], x.a[0]))


def _h_minmax(ex, a, n):
    x, y = a
    if x is T.NAN:
        return y
    if y is T.NAN:
        return x
    lt = ex.decide(x, '<', y)
    if 'min' in n:
        return x if lt else y
    return y if lt else x


def _h_copysign(ex, a, n):
    m = _h_fabs(ex, (a[0],), n)
    return m if ex.decide(a[1], '>=', T.ZERO) else T.neg(m)


def _h_atan2(ex, a, n):
    y, x = a
    if y is UNDEF or x is UNDEF:
        return UNDEF
    return T.atan2(y, x)


def _h_pow(ex, a, n):
    x, y = a
    if y.op == 'const' and y.c.denominator == 1 and abs(y.c) <= 8:
        r = T.ONE
        for _ in range(abs(int(y.c))):
            r = T.mul(r, x)
        return r if y.c >= 0 else T.div(T.ONE, r)
    if y.op == 'const' and y.c == Fraction(1, 2):
        return ex.fsqrt(x)
    raise Unsupported('pow')


def _h_hypot(ex, a, n):
    return ex.fsqrt(T.add(T.mul(a[0], a[0]), T.mul(a[1], a[1])))


def _h_acos(ex, a, n):
    ex.p.divs.append(('unit', a[0], len(ex.p.facts)))
    return T.fn1('acos', a[0])


def _h_throw(ex, a, n):
    raise Thrown(a[1], a[0])


def _h_dyncast(ex, a, n):
    """single, non-virtual inheritance at offset 0"""
    src, sti, dti = a[0], a[1], a[2]
    if src == 0:
        return 0
    vp = ex.load_cell(*ex.chk(src, 8, 'load'), 8)
    if not isinstance(vp, int):
        raise Fault('dynamic_cast on an object without a dynamic type')
    if _word(ex, vp - 16) not in (0, None):
        raise Unsupported('dynamic_cast with a base offset')
    ti = _word(ex, vp - 8)
    for _ in range(20):
        if ti == dti:
            return src
        o, off = ex.chk(ti, 16, 'load')
        if o.size < 24:
            return 0
        if o.size != 24:
            raise Unsupported('dynamic_cast through multiple inheritance')
        ti = _word(ex, ti + 16)
    raise Unsupported('dynamic_cast')


def _word(ex, p):
    return ex.load_cell(*ex.chk(p, 8, 'load'), 8)


def _exc_ctor(ex, a, n):
    """a standard exception object: its vtable has two destructors and what()"""
    vt = ex.gaddr.get('#exception vtable')
    if vt is None:
        o = ex.alloc(24, 'const', '#exception vtable')
        vt = ex.gaddr['#exception vtable'] = o.base
        d = ex.fptr('_ZNSt9exceptionD1Ev')
        for i, f in enumerate((d, d, ex.fptr('#what'))):
            o.data[8 * i] = (f, 8)
    ex.store_cell(*ex.chk(a[0], 8, 'store'), 8, vt)


def _exc_what(ex, a, n):
    m = ex.gaddr.get('#exception message')
    if m is None:
        o = ex.alloc(8, 'const', '#exception message')
        m = ex.gaddr['#exception message'] = o.base
        o.data[0] = (0x21, 1)
        o.data[1] = (0, 1)
    return m


def _h_throwstd(ex, a, n):
    nm = {'_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
          '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
          '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
          '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
          '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call'}.get(n, '_ZTISt9exception')
    o = ex.alloc(16, 'heap', 'exception')
    _exc_ctor(ex, [o.base], n)
    raise Thrown(ex.gptr(ex.prog.mods[0], nm), o.base)


def _h_sincos(ex, a, n):
    raise Unsupported('sincos')


def _prime(n):
    while n > 2 and any(n % q == 0 for q in range(2, int(n ** .5) + 1)):
        n += 1
    return max(n, 2)


def _h_rehash(ex, a, n):
    """std::__detail::_Prime_rehash_policy::_M_need_rehash(buckets, elements, inserted) at load factor 1"""
    _, nb, ne, ni = a
    return (1, _prime(max(ne + ni, 2 * nb))) if ne + ni > nb else (0, 0)


def _h_nextbkt(ex, a, n):
    return _prime(a[1])


DEFAULT_HOOKS = {
    '_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm': _h_rehash,
    '_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm': _h_nextbkt,
    'malloc': _h_malloc, '_Znwm': _h_malloc, '_Znam': _h_malloc, 'calloc': _h_calloc, 'realloc': _h_realloc,
    '_ZnwmSt11align_val_t': _h_malloc,
    'free': _h_free, '_ZdlPv': _h_free, '_ZdlPvm': _h_free, '_ZdaPv': _h_free, '_ZdaPvm': _h_free,
    '_ZdlPvSt11align_val_t': _h_free, '_ZdlPvmSt11align_val_t': _h_free,
    'memcpy': lambda ex, a, n: (ex.memcpy(a[0], a[1], a[2]), a[0])[1],
    'memmove': lambda ex, a, n: (ex.memcpy(a[0], a[1], a[2]), a[0])[1],
    'memset': lambda ex, a, n: (ex.memset(a[0], a[1], a[2]), a[0])[1],
    'strlen': lambda ex, a, n: len(_cstr(ex, a[0])),
    'sqrt': lambda ex, a, n: ex.fsqrt(a[0]), 'nan': lambda ex, a, n: T.NAN,
    'sin': _sig(lambda x: T.fn1('sin', x)), 'cos': _sig(lambda x: T.fn1('cos', x)),
    'tan': _sig(lambda x: T.fn1('tan', x)), 'acos': _h_acos, 'atan2': _h_atan2,
    'atan': _sig(lambda x: T.atan2(x, T.ONE)),
    'fabs': _h_fabs, 'pow': _h_pow, 'hypot': _h_hypot, 'fmin': _h_minmax, 'fmax': _h_minmax,
    '__cxa_allocate_exception': lambda ex, a, n: ex.alloc(a[0], 'heap', 'exception').base,
    '__cxa_free_exception': lambda ex, a, n: None,
    '__cxa_throw': _h_throw, '__dynamic_cast': _h_dyncast,
    '__cxa_rethrow': lambda ex, a, n: (_ for _ in ()).throw(ex.exc),
    '__cxa_begin_catch': lambda ex, a, n: a[0], '__cxa_end_catch': lambda ex, a, n: None,
    '__cxa_guard_acquire': lambda ex, a, n: 1, '__cxa_guard_release': lambda ex, a, n: None,
    '__cxa_atexit': lambda ex, a, n: 0, 'atexit': lambda ex, a, n: 0,
    'vabort': lambda ex, a, n: (_ for _ in ()).throw(Fault('abort')),
    'abort': lambda ex, a, n: (_ for _ in ()).throw(Fault('abort')),
    '__assert_fail': lambda ex, a, n: (_ for _ in ()).throw(Fault('assertion fails')),
    '_ZSt9terminatev': lambda ex, a, n: (_ for _ in ()).throw(Fault('terminate')),
    '__cxa_pure_virtual': lambda ex, a, n: (_ for _ in ()).throw(Fault('pure virtual call')),
}
for _n in ('runtime_error', 'invalid_argument', 'logic_error', 'out_of_range', 'length_error', 'domain_error'):
    for _s in ('%d%s' % (len(_n), _n),):
        for _c in ('C1EPKc', 'C2EPKc', 'D1Ev', 'D2Ev', 'D0Ev', 'C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
                   'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'):
            DEFAULT_HOOKS['_ZNSt%s%s' % (_s, _c)] = _exc_ctor if _c[0] == 'C' else lambda ex, a, n: None
DEFAULT_HOOKS['#what'] = _exc_what
for _c in ('_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD2Ev', '_ZNSt9bad_allocD1Ev', '_ZNSt9bad_allocD2Ev'):
    DEFAULT_HOOKS[_c] = lambda ex, a, n: None


def _ret0(ex, a, n):
    return a[0] if a else None


PREFIX_HOOKS = [
    ('_ZNSt6chrono3_V2', lambda ex, a, n: 0),
    ('_ZSt16__ostream_insert', _ret0), ('_ZSt4endl', _ret0), ('_ZNSo', _ret0), ('_ZStls', _ret0),
    ('_ZN5EigenlsI', _ret0), ('_ZNKSt9basic_ios', _ret0), ('_ZNSt9basic_ios', _ret0), ('_ZNSolsE', _ret0),
    ('_ZSt5flush', _ret0),
    ('_ZSt16__throw_', _h_throwstd), ('_ZSt17__throw_', _h_throwstd), ('_ZSt19__throw_', _h_throwstd),
    ('_ZSt20__throw_', _h_throwstd), ('_ZSt24__throw_', _h_throwstd), ('_ZSt25__throw_', _h_throwstd),
    ('_ZSt28__throw_', _h_throwstd),
    # std::string contents are never inspected by the numeric contracts
]

_intr = {}


def intrinsic(name):
    h = _intr.get(name)
    if h is not None:
        return h
    b = name[5:]
    if b.startswith('lifetime'):
        h = lambda ex, a, n, e=b.startswith('lifetime.end'): setattr(ex.find(a[1]), 'ended', e)
    elif b.startswith(('experimental.noalias', 'assume', 'dbg', 'invariant', 'donothing', 'prefetch', 'sideeffect')):
        h = lambda ex, a, n: None
    elif b.startswith(('memcpy', 'memmove')):
        h = lambda ex, a, n: ex.memcpy(a[0], a[1], a[2])
    elif b.startswith('memset'):
        h = lambda ex, a, n: ex.memset(a[0], a[1], a[2])
    elif b.startswith('sqrt'):
        h = lambda ex, a, n: ex.fsqrt(a[0])
    elif b.startswith('fabs'):
        h = _h_fabs
    elif b.startswith(('minnum', 'maxnum', 'minimum', 'maximum')):
        h = _h_minmax
    elif b.startswith('copysign'):
        h = _h_copysign
    elif b.startswith(('fmuladd', 'fma')):
        h = lambda ex, a, n: T.add(T.mul(a[0], a[1]), a[2])
    elif b.startswith('sin.'):
        h = _sig(lambda x: T.fn1('sin', x))
    elif b.startswith('cos.'):
        h = _sig(lambda x: T.fn1('cos', x))
    elif b.startswith('pow'):
        h = _h_pow
    elif b.startswith(('umax', 'umin', 'smax', 'smin', 'abs')):
        w = int(b.split('.i')[-1])

        def h(ex, a, n, b=b, w=w):
            if a[0] is UNDEF or a[1] is UNDEF:
                return UNDEF
            if b.startswith('abs'):
                return abs(sx(a[0], w)) & MASK[w]
            if b.startswith('umax'):
                return max(a[0], a[1])
            if b.startswith('umin'):
                return min(a[0], a[1])
            x, y = sx(a[0], w), sx(a[1], w)
            return (max(x, y) if b.startswith('smax') else min(x, y)) & MASK[w]
    elif b.startswith('eh.typeid.for'):
        h = lambda ex, a, n: ex.tid(a[0])
    elif b.startswith('expect'):
        h = lambda ex, a, n: a[0]
    elif b.startswith('trap'):
        h = lambda ex, a, n: (_ for _ in ()).throw(Fault('trap'))
    elif b.startswith('is.constant'):
        h = lambda ex, a, n: 0
    elif b.startswith('is.fpclass'):
        def h(ex, a, n):
            x, m = a
            if x is T.NAN:
                return int(bool(m & 3))
            if x is T.INF:
                return int(bool(m & 0x200))
            if x is T.NINF:
                return int(bool(m & 0x4))
            if m & 0x207 == m:
                return 0
            if m & 0x1f8 == 0x1f8:
                return 1
            raise Unsupported('is.fpclass')
    elif b.startswith(('umul.with.overflow', 'uadd.with.overflow', 'smul.with.overflow', 'sadd.with.overflow')):
        w = int(b.split('.i')[-1])

        def h(ex, a, n, b=b, w=w):
            x, y = a
            if b[0] == 's':
                x, y = sx(x, w), sx(y, w)
            r = x * y if 'mul' in b else x + y
            ok = 0 <= r <= MASK[w] if b[0] == 'u' else -(1 << (w - 1)) <= r < (1 << (w - 1))
            return (r & MASK[w], int(not ok))
    elif b.startswith('vector.reduce.fadd'):
        def h(ex, a, n):
            r = a[0]
            for x in a[1]:
                r = T.add(r, x)
            return r
    elif b.startswith('ctpop'):
        h = lambda ex, a, n: bin(a[0]).count('1')
    elif b.startswith(('ctlz', 'cttz')):
        w = int(b.split('.i')[-1])
        h = (lambda ex, a, n, w=w: w - a[0].bit_length()) if b.startswith('ctlz') else \
            (lambda ex, a, n, w=w: ((a[0] & -a[0]).bit_length() - 1) if a[0] else w)
    else:
        def h(ex, a, n):
            raise Unsupported('intrinsic ' + n)
    _intr[name] = h
    return h
