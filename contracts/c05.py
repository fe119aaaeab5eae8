from .registry import Property
from .lib import *
from .c04 import vcoef, SP

P = Property('C05', ['h_transforms.cc'])
FT = framed_too(P)


def comm(A, B):
    return msub(mm(A, B), mm(B, A))


@FT('SO3: Ad_R v conjugates (hat(Ad_R v) = R hat(v) R^-1); matrix and vector forms agree; ad is the bracket')
def so3_adjoint(c):
    A, v, w = c.rot('a'), c.vec('v'), c.vec('w')
    o = c.call('h_so3_adj', x=flat(A) + v + w, no=33)
    c.no_throw(o)
    Ad, Adv, ad, adw, cm = m3(o.o), vec(o.o, 9), m3(o.o, 12), vec(o.o, 21), m3(o.o, 24)
    c.eqm(hat(Adv), mm(mm(A, hat(v)), tr(A)), 'hat(Ad v) = R hat(v) R^T')
    c.eqv(mv(Ad, v), Adv, 'adjoint() v = adjoint_times(v)')
    c.eqm(hat(adw), comm(hat(v), hat(w)), 'adjoint_times(v, w) is the commutator')
    c.eqv(mv(ad, w), adw, 'adjoint(v) w = adjoint_times(v, w)')
    c.eqv(mv(cm, w), cross(v, w), 'cross_matrix(v) w = v x w')


@FT('SE3: Ad_T v conjugates (hat(Ad_T v) = T hat(v) T^-1) for every pose and twist; matrix form agrees')
def se3_adjoint_group(c):
    A, t, v = c.rot('a'), c.vec('t'), c.vec('v', 6)
    o = c.call('h_se3_adj', x=flat(A) + t + v + [0] * 6, no=84)
    c.no_throw(o)
    Ad, Adv = mat(o.o, 0, 6, 6), vec(o.o, 36, 6)
    T, Ti = hom(A, t), hom(tr(A), scale(-1, mv(tr(A), t)))
    c.eqm(hat6(Adv), mm(mm(T, hat6(v)), Ti), 'hat(Ad v) = T hat(v) T^-1')
    c.eqv(mv(Ad, v), Adv, 'adjoint() v = adjoint_times(v)')


@FT('SE3: ad is the Lie bracket (matrix commutator) for every pair of twists; matrix form agrees')
def se3_adjoint_algebra(c):
    v, w = c.vec('v', 6), c.vec('w', 6)
    o = c.call('h_se3_adj', x=flat(eye(3)) + [0] * 3 + v + w, no=84)
    c.no_throw(o)
    ad, adw = mat(o.o, 42, 6, 6), vec(o.o, 78, 6)
    c.eqm(hat6(adw), comm(hat6(v), hat6(w)), 'adjoint_times(v, w) is the commutator')
    c.eqv(mv(ad, w), adw, 'adjoint(v) w = adjoint_times(v, w)')


@FT('Ad is a homomorphism: Ad_(AB) = Ad_A Ad_B')
def se3_adjoint_hom(c):
    A, s, B, t, v = c.rot('a'), c.vec('s'), c.rot('b'), c.vec('t'), c.vec('v', 6)
    ab = c.call('h_se3_mul', x=flat(A) + s + flat(B) + t, no=12)
    l = c.call('h_se3_adj', x=list(ab.o[0:12]) + v + [0] * 6, no=84)
    r1 = c.call('h_se3_adj', x=flat(B) + t + v + [0] * 6, no=84)
    r2 = c.call('h_se3_adj', x=flat(A) + s + list(r1.o[36:42]) + [0] * 6, no=84)
    c.eqv(l.o[36:42], r2.o[36:42], 'Ad_(AB) v = Ad_A Ad_B v')


@P.contract('exp_diff(w) is the left Jacobian of exp: a I + b hat(w) + c w w^T, every w != 0')
def so3_exp_diff(c):
    u = c.unit('u')
    th = c.real('th', 0, 10, pos=True, special=SP)
    w = scale(th, u)
    o = c.call('h_so3_expdiff', x=w, no=9)
    c.no_throw(o)
    a, b, cc = vcoef(c, th)
    J = [[a * (1 if i == j else 0) + b * hat(w)[i][j] + cc * w[i] * w[j] for j in range(3)] for i in range(3)]
    c.nearm(m3(o.o), J, 'exp_diff', ntol=1e-8)


@P.contract('exp_diff is the derivative of exp along every curve w = t*u + rotation of u (differentiated Rodrigues)')
def so3_exp_diff_is_derivative(c):
    # d exp(w(s)) = hat(J dw) exp(w); w = th*u, dw = dth*u + th*(q x u)
    # d(th u) with u' = q x u : R(w) = Rodrigues, R' = dth * hat(u) R + hat(q) R - R hat(q)
    u, q = c.unit('u'), c.vec('q')
    th = c.real('th', 0, 6, pos=True, special=SP)
    dth = c.real('dth')
    c.assume(th * th >= 1e-5)
    R = rodrigues(c, u, th)
    o = c.call('h_so3_expdiff', x=scale(th, u), no=9)
    dw = add(scale(dth, u), scale(th, cross(q, u)))
    dR = madd(mscale(dth, mm(hat(u), R)), comm(hat(q), R))
    c.eqm(mm(hat(mv(m3(o.o), dw)), R), dR, 'hat(J dw) R = dR', tol=1e-6)


@P.contract('exp_diff(0) = I')
def so3_exp_diff_zero(c):
    o = c.call('h_so3_expdiff', x=[0, 0, 0], no=9)
    c.nearm(m3(o.o), eye(3), 'exp_diff(0)')


@P.contract('a twist is (rotation, translation): parts and from_parts are inverse, parts are writable views')
def se3_parts(c):
    v, w = c.vec('v', 6), c.vec('w', 6)
    o = c.call('h_se3_parts', x=v + w, no=18)
    c.no_throw(o)
    c.eqv(vec(o.o, 0), v[:3], 'rotation part')
    c.eqv(vec(o.o, 3), v[3:], 'translation part')
    c.eqv(vec(o.o, 6, 6), v, 'from parts')
    c.eqv(vec(o.o, 12, 6), w, 'assignment through the parts')
