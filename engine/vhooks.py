"""meaning of the harness vocabulary and the contracts of the SO(3) functions"""
import symex, cut, terms as T
from llvmir import UNDEF
from symex import _cstr, Fault, Unsupported

SO3 = {'exp': '_ZN9factorama9ExpMapSO3ERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE',
       'log': '_ZN9factorama9LogMapSO3ERKN5Eigen6MatrixIdLi3ELi3ELi0ELi3ELi3EEE',
       'jinv': '_ZN9factorama34compute_inverse_right_jacobian_so3ERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEE'}


def rd(ex, p, n):
    out = []
    for i in range(n):
        v = ex.load_cell(*ex.chk(p + 8 * i, 8, 'load'), 8)
        if isinstance(v, int):
            v = symex.bits2d(v)
        out.append(v)
    return out


def wr(ex, p, vals):
    for i, v in enumerate(vals):
        o, off = ex.chk(p + 8 * i, 8, 'store')
        ex.store_cell(o, off, 8, v)


def need(vals):
    for v in vals:
        if not isinstance(v, T.T):
            raise Fault('undefined value used')
    return vals


def h_vsym(ex, a, n):
    nm = _cstr(ex, a[0]).decode()
    return T.sym('%s.%d' % (nm, symex.sx(a[1], 32)), ('', 'pos', 'angle')[a[2]])


def h_vunit(ex, a, n):
    nm = _cstr(ex, a[0]).decode()
    u = tuple(T.sym('%s.%d' % (nm, i)) for i in range(3))
    if u not in ex.units:
        ex.units.append(u)
        raise T.Resample('new unit vector')
    wr(ex, a[1], u)


def h_vquat(ex, a, n):
    nm = _cstr(ex, a[0]).decode()
    u = tuple(T.sym('%s.%d' % (nm, i)) for i in range(4))
    if u not in ex.units:
        ex.units.append(u)
        raise T.Resample('new unit quaternion')
    wr(ex, a[1], u)


def h_stable_norm(ex, a, n):
    """contract of Eigen's stableNorm on a 3-vector expression that starts with its data pointer"""
    ex.contracts_used['Eigen stableNorm'] = ex.contracts_used.get('Eigen stableNorm', 0) + 1
    p = ex.load_cell(*ex.chk(a[0], 8, 'load'), 8)
    v = need(rd(ex, p, 3))
    return T.sqrt(T.add(T.add(T.mul(v[0], v[0]), T.mul(v[1], v[1])), T.mul(v[2], v[2])))


def h_vrot(ex, a, n):
    nm = _cstr(ex, a[0]).decode()
    v = [T.sym('%s.%d' % (nm, i)) for i in range(3)]
    E = T.expso3(v)
    if a[1]:
        wr(ex, a[1], v)
    wr(ex, a[2], [E[i][j] for j in range(3) for i in range(3)])


def h_vexp(ex, a, n):
    E = T.expso3(need(rd(ex, a[0], 3)))
    wr(ex, a[1], [E[i][j] for j in range(3) for i in range(3)])


def h_vjl(ex, a, n):
    J = T.jl(need(rd(ex, a[0], 3)))
    wr(ex, a[1], [J[i][j] for j in range(3) for i in range(3)])


def h_assume(ex, a, n):
    x, p, y = a
    if T.isspecial(x) or T.isspecial(y):
        raise Unsupported('assume on special')
    if y.op == 'const':
        ex.assume(x, ('<', '<=', '>', '>=')[p], y.c)
    elif x.op == 'const':
        ex.assume(y, ('>', '>=', '<', '<=')[p], x.c)
    else:
        ex.assume(T.sub(x, y), ('<', '<=', '>', '>=')[p], 0)


def h_choose(ex, a, n):
    return ex.choose(a[1], _cstr(ex, a[0]).decode())


def h_vout(ex, a, n):
    tag = _cstr(ex, a[0]).decode()
    r, c = symex.sx(a[3], 64), symex.sx(a[4], 64)
    ex.p.outs.append((tag, symex.sx(a[1], 32), r, c, rd(ex, a[2], r * c) if r * c > 0 else []))


def h_vint(ex, a, n):
    ex.p.outs.append((_cstr(ex, a[0]).decode(), symex.sx(a[1], 32), 'int', symex.sx(a[2], 64) if a[2] is not UNDEF else None, []))


def h_same(ex, a, n):
    return 1 if a[0] is a[1] else 0


def h_vuf(ex, a, n):
    return T.uf(_cstr(ex, a[0]).decode(), symex.sx(a[1], 32), need(rd(ex, a[2], symex.sx(a[3], 32))), a[4])


def h_exp(ex, a, n):
    ex.contracts_used['ExpMapSO3'] = ex.contracts_used.get('ExpMapSO3', 0) + 1
    E = T.expso3(need(rd(ex, a[1], 3)))
    wr(ex, a[0], [E[i][j] for j in range(3) for i in range(3)])


def h_log(ex, a, n):
    ex.contracts_used['LogMapSO3'] = ex.contracts_used.get('LogMapSO3', 0) + 1
    m = need(rd(ex, a[1], 9))
    M = [[m[3 * j + i] for j in range(3)] for i in range(3)]
    wr(ex, a[0], T.logso3(M))


def h_jinv(ex, a, n):
    ex.contracts_used['compute_inverse_right_jacobian_so3'] = ex.contracts_used.get('compute_inverse_right_jacobian_so3', 0) + 1
    J = T.jlinv(need(rd(ex, a[1], 3)))
    wr(ex, a[0], [J[i][j] for j in range(3) for i in range(3)])


def h_cut_item(ex, a, n):
    if n == 'vcut_forget':
        ex.cutdef[3].append(_cstr(ex, a[0]).decode())
    elif n == 'vcut_keep':
        ex.cutdef[2].append((a[0], symex.sx(a[1], 32)))
    else:
        ex.cutdef[0 if n == 'vcut_basis' else 1].append((_cstr(ex, a[0]).decode(), a[1], symex.sx(a[2], 32), ('', 'pos', 'angle')[a[3]]))


def h_cut(ex, a, n):
    d, ex.cutdef = ex.cutdef, ([], [], [], [])
    cut.cut(ex, _cstr(ex, a[0]).decode(), *d)


HARNESS = {'vcut': h_cut, 'vcut_basis': h_cut_item, 'vcut_weak': h_cut_item, 'vcut_keep': h_cut_item, 'vcut_forget': h_cut_item,
           'vsym': h_vsym, 'vunit': h_vunit, 'vrot': h_vrot, 'vassume': h_assume, 'vchoose': h_choose, 'vout': h_vout,
           'vint': h_vint, 'vsame': h_same, 'vexp': h_vexp, 'vjl': h_vjl, 'vquat': h_vquat, 'vuf': h_vuf}
CONTRACTS = {SO3['exp']: h_exp, SO3['log']: h_log, SO3['jinv']: h_jinv}


def eigen_contracts(prog):
    """hooks for Eigen functions replaced by contracts: name -> hook"""
    return {n: h_stable_norm for n in prog.fdef if n.endswith('10stableNormEv') and 'Block' in n and 'Li3ELi1ELb' in n}
