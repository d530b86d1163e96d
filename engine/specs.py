"""Contracts of the factors: residual definitions over the symbolic state, written independently of the code."""
import terms as T
from terms import sym, add, sub, mul, div, neg, sqrt, const, fn1, atan2, mv, mm, tr, dot, vsub, vadd, vscale

ONE = T.ONE


def S(n, k, kind=''):
    return sym('%s.%d' % (n, k), kind)


def V(n, m=3):
    return [S(n, i) for i in range(m)]


def R(n):
    return T.expso3(V(n))


def W(k=0):
    return div(ONE, S('sigma', k, 'pos'))


def norm(v):
    return sqrt(dot(v, v))


def unit(v):
    n = norm(v)
    return [div(x, n) for x in v]


def wrap(x):
    return atan2(fn1('sin', x), fn1('cos', x))


def log(M):
    return list(T.logso3(M))


def sc(w, v):
    return [mul(w, x) for x in v]


def R2(t):
    c, s = fn1('cos', t), fn1('sin', t)
    return [[c, neg(s)], [s, c]]


# ---- variables: (kind, symbols). size, value terms and the directions of the documented update
class Pose:
    size = 6

    def __init__(s, p, w):
        s.p, s.w = p, w

    def value(s):
        return V(s.p) + V(s.w)

    def dirs(s):
        for k in range(3):
            yield {S(s.p, k): ONE}, {}
        for k in range(3):
            yield {}, {tuple(x.id for x in V(s.w)): [ONE if i == k else T.ZERO for i in range(3)]}


class Rot:
    size = 3

    def __init__(s, w):
        s.w = w

    def value(s):
        return V(s.w)

    def dirs(s):
        for k in range(3):
            yield {}, {tuple(x.id for x in V(s.w)): [ONE if i == k else T.ZERO for i in range(3)]}


class Vec:
    def __init__(s, n, size=3, kind=''):
        s.n, s.size, s.kind = n, size, kind

    def value(s):
        return [S(s.n, k, s.kind) for k in range(s.size)]

    def dirs(s):
        for k in range(s.size):
            yield {S(s.n, k, s.kind): ONE}, {}


class Plane:
    size = 4

    def __init__(s, u, d):
        s.u, s.d = u, d

    def value(s):
        return V(s.u) + [S(s.d, 0)]

    def dirs(s):
        u = V(s.u)
        for k in range(3):
            yield {u[i]: sub(ONE if i == k else T.ZERO, mul(u[i], u[k])) for i in range(3)}, {}
        yield {S(s.d, 0): ONE}, {}


class Pose2:
    size = 3

    def __init__(s, p, t):
        s.p, s.t = p, t

    def value(s):
        return [S(s.p, 0), S(s.p, 1), S(s.t, 0, 'angle')]

    def dirs(s):
        for x in s.value():
            yield {x: ONE}, {}


class H:
    """a harness: entry, variables, residual size, contract. spec() returns alternatives
    [(guards, [residual terms] or a function code_residual -> [terms that must vanish])]"""

    def __init__(s, name, fam, vars, rs, spec, alts=None, known=None, zero_rows=()):
        s.name, s.fam, s.vars, s.rs, s.spec, s.alts, s.known = name, fam, vars, rs, spec, alts, known


def bearing(l):
    return lambda: sc(W(), vsub(unit(mv(R('w'), vsub(l(), V('p')))), unit(V('b'))))


def irange_lm():
    return vadd(V('o'), vscale(div(ONE, S('rho', 0, 'pos')), unit(V('u'))))


def proj_alts():
    b = V('b')
    y = unit(mv(R('w'), vsub(V('l'), V('p'))))
    depth = dot(b, y)
    eps = const('0.000001') if False else const(1e-6)
    w = W()

    def front(r):
        # the residual is w times the component of the bearing orthogonal to the observation, in an
        # orthonormal basis of the tangent plane: it has exactly that length
        return [sub(dot(r, r), mul(mul(w, w), sub(ONE, mul(depth, depth))))]

    def back(r):
        return [sub(x, w) for x in r]

    return [([(depth, '>', eps.c)], front), ([(depth, '<=', eps.c)], back)]


def plane_dist():
    return add(dot(V('u'), V('l')), S('d', 0))


def plane_prior():
    u, n = V('u'), unit(V('n'))
    d = vsub(u, n)
    t = dot(u, d)
    return sc(W(0), [sub(d[i], mul(u[i], t)) for i in range(3)]) + [mul(W(1), sub(S('d', 0), S('m', 0)))]


def local2():
    return mv(tr(R2(S('t', 0, 'angle'))), vsub(V('l', 2), V('p', 2)))


def bearing2():
    x = local2()
    return wrap(sub(atan2(x[1], x[0]), S('m', 0)))


def p2between(rot):
    def f():
        d = vsub(V('o', 2), V('p', 2))
        if rot:
            d = mv(rot(R2(S('t', 0, 'angle'))), d)
        m = V('m')
        return (sc(W(0), [sub(d[0], m[0]), sub(d[1], m[1])]) +
                [mul(W(1), wrap(sub(sub(S('v', 0, 'angle'), S('t', 0, 'angle')), m[2])))])
    return f


def coord():
    lam = vsub(sc(S('s', 0), mv(R('w'), V('b'))), V('o'))
    return sc(W(), vsub(V('a'), lam))


def vel(n, m, k, x='x', y='y'):
    return lambda: sc(W(), [sub(sub(S(y, k + i), S(x, k + i)), mul(S('dt', 0), S('m', i))) for i in range(m)])


HARNESSES = [
    H('h_bearing_observation', 'bearing3d', [Pose('p', 'w'), Vec('l')], 3, bearing(lambda: V('l'))),
    H('h_inverse_range', 'bearing3d', [Pose('p', 'w'), Vec('rho', 1, 'pos')], 3, bearing(irange_lm)),
    H('h_bearing_projection', 'bearing3d', [Pose('p', 'w'), Vec('l')], 2, None, proj_alts),
    H('h_pose_position_prior', 'linear', [Pose('p', 'w')], 3, lambda: sc(W(), vsub(V('p'), V('m')))),
    H('h_pose_orientation_prior', 'orient', [Pose('p', 'w')], 3, lambda: sc(W(), log(mm(R('w'), tr(R('q')))))),
    H('h_rotation_prior', 'orient', [Rot('w')], 3, lambda: sc(W(), log(mm(R('w'), tr(R('q')))))),
    H('h_pose_position_between', 'linear', [Pose('p', 'w'), Pose('o', 'q'), Vec('m')], 3,
      lambda: sc(W(), vsub(vsub(V('o'), V('p')), V('m')))),
    H('h_pose_position_between_local', 'linear', [Pose('p', 'w'), Pose('o', 'q'), Vec('m')], 3,
      lambda: sc(W(), vsub(mv(R('w'), vsub(V('o'), V('p'))), V('m')))),
    H('h_pose_position_between_lm', 'linear', [Pose('p', 'w'), Pose('o', 'q'), Vec('m')], 3,
      lambda: sc(W(), vsub(mv(R('w'), vsub(V('o'), V('p'))), V('m')))),
    H('h_pose_orientation_between', 'orient', [Pose('p', 'w'), Pose('o', 'q'), Rot('c')], 3,
      lambda: sc(W(), log(mm(mm(R('q'), tr(R('w'))), R('c'))))),
    H('h_coordinate_transform', 'frames', [Rot('w'), Vec('o'), Vec('s', 1), Vec('a'), Vec('b')], 3, coord),
    H('h_plane', 'plane', [Vec('l'), Plane('u', 'd')], 1, lambda: [mul(W(), plane_dist())]),
    H('h_plane_generic', 'plane', [Vec('l'), Plane('u', 'd')], 1, lambda: [mul(W(), plane_dist())]),
    H('h_plane_scaled', 'plane', [Vec('l'), Plane('u', 'd')], 1,
      lambda: [mul(W(), div(plane_dist(), add(ONE, div(norm(vsub(V('l'), V('c'))), S('r0', 0, 'pos')))))]),
    H('h_plane_prior', 'plane', [Plane('u', 'd')], 4, plane_prior),
    H('h_bearing_2d', '2d', [Pose2('p', 't'), Vec('l', 2)], 1, lambda: [mul(W(), bearing2())]),
    H('h_range_bearing_2d', '2d', [Pose2('p', 't'), Vec('l', 2)], 2,
      lambda: [mul(W(0), sub(norm(vsub(V('l', 2), V('p', 2))), S('rg', 0, 'pos'))), mul(W(1), bearing2())]),
    H('h_pose2d_prior', '2d', [Pose2('p', 't')], 3,
      lambda: sc(W(0), [sub(S('p', i), S('m', i)) for i in range(2)]) +
      [mul(W(1), wrap(sub(S('t', 0, 'angle'), S('m', 2))))]),
    H('h_pose2d_between', '2d', [Pose2('p', 't'), Pose2('o', 'v'), Vec('m')], 3, p2between(None)),
    H('h_pose2d_between_local', '2d', [Pose2('p', 't'), Pose2('o', 'v'), Vec('m')], 3, p2between(tr),
      known=('2D-between-local-frame', p2between(lambda m: m))),
    H('h_velocity_lm', 'linear', [Vec('x'), Vec('y'), Vec('m')], 3, vel(3, 3, 0)),
    H('h_velocity_pose', 'linear', [Pose('p', 'w'), Pose('o', 'q'), Vec('m')], 3, vel(6, 3, 0, 'p', 'o')),
    H('h_prior_landmark', 'linear', [Vec('x')], 3, lambda: sc(W(), vsub(V('x'), V('m')))),
    H('h_between_landmark', 'linear', [Vec('x'), Vec('y'), Vec('m')], 3,
      lambda: sc(W(), vsub(vsub(V('y'), V('x')), V('m')))),
]
for n in (1, 2, 3, 4, 6):
    HARNESSES.append(H('h_generic_prior_%d' % n, 'linear', [Vec('x', n)], n,
                       lambda n=n: sc(W(), vsub(V('x', n), V('m', n)))))
    HARNESSES.append(H('h_generic_between_%d' % n, 'linear', [Vec('x', n), Vec('y', n), Vec('m', n)], n,
                       lambda n=n: sc(W(), vsub(vsub(V('y', n), V('x', n)), V('m', n)))))
for nm, n, m, k in (('1_1', 1, 1, 0), ('3_3', 3, 3, 0), ('3_2', 3, 2, 0), ('3_2_1', 3, 2, 1), ('6_3_3', 6, 3, 3),
                    ('5_2_2', 5, 2, 2)):
    HARNESSES.append(H('h_velocity_' + nm, 'linear', [Vec('x', n), Vec('y', n), Vec('m', m)], m, vel(n, m, k)))
BYNAME = {h.name: h for h in HARNESSES}
