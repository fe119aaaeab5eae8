from .registry import Property
from .lib import *
from . import alias

P = Property('C01', ['h_transforms.cc', 'h_alias.cc'])
FT, MX = framed_too(P), framed_too(P, mixed=True)


@MX('SO3 composition is the matrix product, for every pair of rotations')
def so3_compose(c):
    A, B = c.rot('a'), c.rot('b')
    out = c.call('h_so3_mul', x=flat(A) + flat(B), no=9)
    c.no_throw(out)
    c.eqm(m3(out.o), mm(A, B), 'a*b')


@FT('composition is closed: the product of rotations is a rotation (orthonormal, det 1)')
def so3_closed(c):
    A, B = c.rot('a'), c.rot('b')
    out = c.call('h_so3_mul', x=flat(A) + flat(B), no=9)
    c.no_throw(out)
    M = m3(out.o)
    c.eqm(mm(M, tr(M)), eye(3), 'M M^T = I')
    c.eq(det3(M), 1, 'det M = 1')


@FT('composition is associative')
def so3_associative(c):
    A, B, C = c.rot('a'), c.rot('b'), c.rot('d')
    ab = c.call('h_so3_mul', x=flat(A) + flat(B), no=9)
    bc = c.call('h_so3_mul', x=flat(B) + flat(C), no=9)
    l = c.call('h_so3_mul', x=list(ab.o[0:9]) + flat(C), no=9)
    r = c.call('h_so3_mul', x=flat(A) + list(bc.o[0:9]), no=9)
    c.eqv(l.o[0:9], r.o[0:9], '(ab)c = a(bc)')


@FT('identity and inverse laws; inverse is an involution and a rotation')
def so3_inverse(c):
    A = c.rot('a')
    i = c.call('h_so3_inv', x=flat(A), no=9)
    c.no_throw(i)
    ai = list(i.o[0:9])
    c.eqm(m3(ai), tr(A), 'inverse is the transpose')
    for nm, x in (('g*g^-1', flat(A) + ai), ('g^-1*g', ai + flat(A))):
        o = c.call('h_so3_mul', x=x, no=9)
        c.eqm(m3(o.o), eye(3), nm)
    ii = c.call('h_so3_inv', x=ai, no=9)
    c.eqm(m3(ii.o), A, 'inverse of inverse')
    e = c.call('h_so3_identity', no=9)
    c.eqm(m3(e.o), eye(3), 'identity')
    for nm, x in (('e*g', list(e.o[0:9]) + flat(A)), ('g*e', flat(A) + list(e.o[0:9]))):
        o = c.call('h_so3_mul', x=x, no=9)
        c.eqm(m3(o.o), A, nm)


@FT('the inverse of a product is the reversed product of inverses')
def so3_inverse_of_product(c):
    A, B = c.rot('a'), c.rot('b')
    o = c.call('h_so3_inv_mul', x=flat(A) + flat(B), no=18)
    c.no_throw(o)
    c.eqv(o.o[0:9], o.o[9:18], '(ab)^-1 = b^-1 a^-1')


@FT('the action on vectors is the matrix action: a homomorphism preserving lengths and angles')
def so3_action(c):
    A, B = c.rot('a'), c.rot('b')
    v, w = c.vec('v'), c.vec('w')
    av = c.call('h_so3_act', x=flat(A) + v, no=6)
    c.no_throw(av)
    c.eqv(vec(av.o), mv(A, v), 'operator*(v)')
    c.eqv(vec(av.o, 3), mv(A, v), 'rotate(v)')
    aw = c.call('h_so3_act', x=flat(A) + w, no=6)
    c.eq(dot(vec(av.o), vec(aw.o)), dot(v, w), 'inner products preserved')
    ab = c.call('h_so3_mul', x=flat(A) + flat(B), no=9)
    l = c.call('h_so3_act', x=list(ab.o[0:9]) + v, no=6)
    bv = c.call('h_so3_act', x=flat(B) + v, no=6)
    r = c.call('h_so3_act', x=flat(A) + vec(bv.o), no=6)
    c.eqv(vec(l.o), vec(r.o), '(ab)v = a(bv)')


@FT('construction from quaternion, angle-axis, angle and axis denotes that rotation; quaternion() inverts it')
def so3_constructors(c):
    w, x, y, z = c.quat('q')
    A = c.rot('q')
    for q in ([w, x, y, z], [-w, -x, -y, -z]):  # q and -q are the same rotation
        o = c.call('h_so3_from_quat', x=q, no=13)
        c.no_throw(o)
        c.eqm(m3(o.o), A, 'from quaternion')
        # quaternion() returns +-q: compare the products q_i q_j
        p = vec(o.o, 9, 4)
        for i in range(4):
            for j in range(i, 4):
                c.eq(p[i] * p[j], q[i] * q[j], 'quaternion() reproduces the rotation')
    u = c.unit('u')
    th = c.real('th', -40, 40, special=(0., 1e-7, 1., -3., 3.141592653589793, 6.3))
    Rr = rodrigues(c, u, th)
    o = c.call('h_so3_from_aa', x=[th] + u, no=18)
    c.no_throw(o)
    c.eqm(m3(o.o), Rr, 'from angle-axis')
    c.eqm(m3(o.o, 9), Rr, 'from angle and axis')


alias.groups(P, ['so3'])
