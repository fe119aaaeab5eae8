from .registry import Property
from .lib import *
from . import alias

P = Property('C02', ['h_transforms.cc', 'h_alias.cc'])
FT, MX = framed_too(P), framed_too(P, mixed=True)


def pose(c, n):
    return flat(c.rot(n)) + c.vec(n + 't')


def H4(o, i=0):
    return hom(m3(o, i), vec(o, i + 9))


@MX('SE3 composition is the homogeneous matrix product')
def se3_compose(c):
    A, B = pose(c, 'a'), pose(c, 'b')
    o = c.call('h_se3_mul', x=A + B, no=12)
    c.no_throw(o)
    c.eqm(H4(o.o), mm(H4(A), H4(B)), 'a*b')


@FT('composition is closed (rotation part stays a rotation) and associative')
def se3_closed_associative(c):
    A, B, C = pose(c, 'a'), pose(c, 'b'), pose(c, 'd')
    ab = c.call('h_se3_mul', x=A + B, no=12)
    bc = c.call('h_se3_mul', x=B + C, no=12)
    M = m3(ab.o)
    c.eqm(mm(M, tr(M)), eye(3), 'orthonormal')
    c.eq(det3(M), 1, 'det = 1')
    l = c.call('h_se3_mul', x=list(ab.o[0:12]) + C, no=12)
    r = c.call('h_se3_mul', x=A + list(bc.o[0:12]), no=12)
    c.eqv(l.o[0:12], r.o[0:12], '(ab)c = a(bc)')


@FT('identity and inverse laws')
def se3_inverse(c):
    A = pose(c, 'a')
    i = c.call('h_se3_inv', x=A, no=12)
    c.no_throw(i)
    ai = list(i.o[0:12])
    for nm, x in (('g*g^-1', A + ai), ('g^-1*g', ai + A)):
        o = c.call('h_se3_mul', x=x, no=12)
        c.eqm(H4(o.o), eye(4), nm)
    ii = c.call('h_se3_inv', x=ai, no=12)
    c.eqv(ii.o[0:12], A, 'inverse of inverse')
    e = c.call('h_se3_identity', no=12)
    c.eqm(H4(e.o), eye(4), 'identity')
    for nm, x in (('e*g', list(e.o[0:12]) + A), ('g*e', A + list(e.o[0:12]))):
        o = c.call('h_se3_mul', x=x, no=12)
        c.eqv(o.o[0:12], A, nm)


@FT('the inverse of a product is the reversed product of inverses')
def se3_inverse_of_product(c):
    A, B = pose(c, 'a'), pose(c, 'b')
    o = c.call('h_se3_inv_mul', x=A + B, no=24)
    c.no_throw(o)
    c.eqv(o.o[0:12], o.o[12:24], '(ab)^-1 = b^-1 a^-1')


@FT('action on points: rigid, homomorphic; rotate() applies the rotation only')
def se3_action(c):
    A, B = pose(c, 'a'), pose(c, 'b')
    v, w = c.vec('v'), c.vec('w')
    av = c.call('h_se3_act', x=A + v, no=6)
    c.no_throw(av)
    c.eqv(vec(av.o), add(mv(m3(A), v), A[9:]), 'operator*(point)')
    c.eqv(vec(av.o, 3), mv(m3(A), v), 'rotate(vector)')
    aw = c.call('h_se3_act', x=A + w, no=6)
    d = sub(vec(av.o), vec(aw.o))
    c.eq(dot(d, d), dot(sub(v, w), sub(v, w)), 'distances preserved')
    ab = c.call('h_se3_mul', x=A + B, no=12)
    l = c.call('h_se3_act', x=list(ab.o[0:12]) + v, no=6)
    bv = c.call('h_se3_act', x=B + v, no=6)
    r = c.call('h_se3_act', x=A + vec(bv.o), no=6)
    c.eqv(vec(l.o), vec(r.o), '(ab)p = a(bp)')


@MX('constructors from rotation only / translation only')
def se3_constructors(c):
    A = c.rot('a')
    t = c.vec('t')
    o = c.call('h_se3_ctors', x=flat(A) + t, no=36)
    c.no_throw(o)
    c.eqm(H4(o.o), hom(A, [0, 0, 0]), 'SE3(rotation)')
    c.eqm(H4(o.o, 12), hom(eye(3), t), 'SE3(translation)')
    c.eqm(H4(o.o, 24), hom(A, t), 'SE3(rotation, translation)')


alias.groups(P, ['se3'])
