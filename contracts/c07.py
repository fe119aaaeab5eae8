from .registry import Property
from .lib import *
from . import alias
from .symlib import *
from .c04 import vcoef, Vmul
from .c06 import fr, framed, group, frames_eq

P = Property('C07', ['h_frames.cc', 'h_alias.cc'])
Z = [0] * 16


@P.contract('se3_distance(a,b) = |(a b^-1).translation| for every pair of poses; throws iff the from frames differ')
def distance(c):
    ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
    framed(c, ai, af), framed(c, bi, bf)
    A, B = group(c, 'se3', 'a'), group(c, 'se3', 'b')
    o = c.call('h_dist', x=A + B, b=ai + af + bi + bf, no=1)
    if c.throws_iff(o, c.Not(c.beq(af, bf)), 'reference frame'):
        return
    RA, RB = m3(A), m3(B)
    d = sub(A[9:], mv(mm(RA, tr(RB)), B[9:]))
    c.eq(o.o[0] * o.o[0], dot(d, d), 'distance^2')
    c.holds(o.o[0] >= 0, 'non-negative')


@P.contract('se3_inverse_distance(a,b) = |(a^-1 b).translation|; throws iff the into frames differ')
def inverse_distance(c):
    ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
    framed(c, ai, af), framed(c, bi, bf)
    A, B = group(c, 'se3', 'a'), group(c, 'se3', 'b')
    o = c.call('h_inv_dist', x=A + B, b=ai + af + bi + bf, no=1)
    if c.throws_iff(o, c.Not(c.beq(ai, bi)), 'reference frame'):
        return
    d = mv(tr(m3(A)), sub(B[9:], A[9:]))
    c.eq(o.o[0] * o.o[0], dot(d, d), 'distance^2')
    c.holds(o.o[0] >= 0, 'non-negative')


def log_is(G, *vals):
    def f(E, args, name):
        E.ctx.note_contract(G + '::log (C03/C04)')
        wr_vec(E, args[0], f.vals)
    return f


def use(c, G, w):
    if c.symbolic:
        import re
        f = log_is(G)
        f.vals = w
        c.E.overrides = c.E.overrides + [(re.compile(r'resim::transforms::%s::log\(\) const$' % G), f)]
        c.E._ov = {}


@P.contract('arc_length is the length of the translation part of the logarithm')
def arc(c):
    w = c.vec('w') + c.vec('v')
    use(c, 'SE3', w)
    if c.symbolic:
        # an arbitrary pose whose logarithm is w
        o = c.call('h_arc', x=flat(eye(3)) + [0, 0, 0], no=1)
    else:
        s = (dot(w[:3], w[:3]) ** 0.5 or 1.0)
        w = [x * min(1.0, 3.0 / s) for x in w[:3]] + w[3:]
        from math import sin, cos
        th = dot(w[:3], w[:3]) ** 0.5
        if th < 1e-6:
            R, t = eye(3), w[3:]
            w = [0, 0, 0] + w[3:]
        else:
            R = rodrigues(c, scale(1 / th, w[:3]), th)
            t = Vmul(vcoef(c, th), w[:3], w[3:])
        o = c.call('h_arc', x=flat(R) + t, no=1)
    c.no_throw(o)
    c.eq(o.o[0] * o.o[0], dot(w[3:], w[3:]), 'arc length^2', tol=1e-6)
    c.holds(o.o[0] >= 0, 'non-negative')


def so3_interp_contract(sgn):
    def g(c):
        u = c.unit('u')
        fa = c.real('fa', 0, 3, pos=True, special=(1.0, 0.5))
        th = c.real('th', 0, 3.1, pos=True)
        R = rodrigues(c, u, th)
        use(c, 'SO3', scale(th, u))
        o = c.call('h_so3_finterp', x=flat(R) + [sgn * fa], k=[0], b=Z * 3, no=9, nbo=32)
        c.no_throw(o)
        c.eqm(m3(o.o), rodrigues(c, u, sgn * fa * th), 'interp')
    return g


P.contract('SO3 interp(f) is the rotation by f times the angle about the same axis, f > 0',
           name='so3_interp[+]')(so3_interp_contract(1))
P.contract('SO3 interp(f) is the rotation by f times the angle about the same axis, f < 0',
           name='so3_interp[-]')(so3_interp_contract(-1))


def se3_interp_contract(sgn):
    def g(c):
        u, tau = c.unit('u'), c.vec('v')
        # fraction f = sgn*fa; ph = |f| * angle
        fa = c.real('fa', 0, 3, pos=True, special=(1.0, 0.5))
        ph = c.real('ph', 0, 3, pos=True, special=(1e-3, 1e-4, 1.0))
        th = ph / fa
        if not c.symbolic:
            c.assume(th < 3.1)
        f = sgn * fa
        w = scale(th, u)
        R = rodrigues(c, u, th)
        if c.symbolic:
            use(c, 'SE3', w + tau)
            t = [0, 0, 0]
        else:
            if th < 1e-5:
                return
            t = Vmul(vcoef(c, th), w, tau)
        o = c.call('h_se3_finterp', x=flat(R) + t + [f], k=[0], b=Z * 3, no=12, nbo=32)
        c.no_throw(o)
        us = scale(sgn, u)
        c.eqm(m3(o.o), rodrigues(c, us, ph), 'rotation of interp', tol=1e-6)
        want = Vmul(vcoef(c, ph), scale(ph, us), scale(f, tau))
        if c.symbolic:
            # the translation is linear in f*tau: compare after dividing by the positive scale
            g_ = [x / fa for x in vec(o.o, 9)]
            w_ = [x / fa for x in want]
            c.nearv(g_, w_, 'translation of interp', rel=tau)
        else:
            c.nearv(vec(o.o, 9), want, 'translation of interp', rel=tau, ntol=1e-6)
    return g


P.contract('SE3 interp(f) = exp(f log T), f > 0', name='se3_interp[+]')(se3_interp_contract(1))
P.contract('SE3 interp(f) = exp(f log T), f < 0', name='se3_interp[-]')(se3_interp_contract(-1))


@P.contract('interp(0) is the identity for SO3 and SE3')
def interp_zero(c):
    w = c.vec('w') + c.vec('v')
    A = c.rot('a')
    use(c, 'SO3', w[:3])
    use(c, 'SE3', w)
    o = c.call('h_so3_finterp', x=flat(A) + [0], k=[0], b=Z * 3, no=9, nbo=32)
    c.no_throw(o)
    c.eqm(m3(o.o), eye(3), 'SO3 interp(0)')
    o = c.call('h_se3_finterp', x=flat(A) + w[3:] + [0], k=[0], b=Z * 3, no=12, nbo=32)
    c.no_throw(o)
    c.eqv(o.o[0:12], flat(eye(3)) + [0, 0, 0], 'SE3 interp(0)')


@P.contract('SO3 interp(1) is the rotation itself, for every rotation')
def so3_interp_one(c):
    A = c.rot('a')
    for k in (0,):
        o = c.call('h_so3_finterp', x=flat(A) + [1], k=[k], b=Z * 3, no=9, nbo=32)
        c.no_throw(o)
        c.eqm(m3(o.o), A, 'interp(1)', tol=1e-6)


@P.contract('interp with a new from frame moves to the same pose as interp without one')
def interp_new_from_value(c):
    u, v = c.unit('u'), c.vec('v')
    ai, af, nf = fr(c, 'ai', 'af', 'nf')
    c.assume(c.Not(c.Or(c.isnull(ai), c.isnull(af), c.isnull(nf))))
    f = c.real('f', -2, 3)
    th = c.real('th', 0, 3.1, pos=True)
    R = rodrigues(c, u, th)
    w = scale(th, u)
    use(c, 'SO3', w)
    use(c, 'SE3', w + v)
    for G, x, n in (('so3', flat(R), 9), ('se3', flat(R) + v, 12)):
        a = c.call('h_%s_finterp' % G, x=x + [f], k=[0], b=ai + af + nf, no=n, nbo=32)
        b = c.call('h_%s_finterp' % G, x=x + [f], k=[1], b=ai + af + nf, no=n, nbo=32)
        c.no_throw(a), c.no_throw(b)
        c.eqv(a.o[0:n], b.o[0:n], G)


@P.contract('equality tests: is_approx holds for equal transforms iff their frames agree; is_approx_transform ignores frames')
def approx_reflexive(c):
    ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
    framed(c, ai, af), framed(c, bi, bf)
    A = group(c, 'se3', 'a')
    o = c.call('h_approx', x=A + A, b=ai + af + bi + bf, nio=4)
    c.no_throw(o)
    same = c.And(c.beq(ai, bi), c.beq(af, bf))
    c.holds(c.Iff(o.io[0] == 1, same), 'SO3 is_approx on equal rotations')
    c.ieq(o.io[1], 1, 'SO3 is_approx_transform is reflexive')
    c.holds(c.Iff(o.io[2] == 1, same), 'SE3 is_approx on equal poses')
    c.ieq(o.io[3], 1, 'SE3 is_approx_transform is reflexive')


@P.contract('transforms that differ by more than 1e-6 (rotation entry or translation) are never approx equal')
def approx_discriminates(c):
    # proved for all matrices of squared norm at most 4 (a rotation has 3)
    if c.symbolic:
        A, B = c.vec('a', 12), c.vec('b', 12)
        c.assume(c.And(dot(A[:9], A[:9]) <= 4, dot(B[:9], B[:9]) <= 4))
    else:
        A, B = group(c, 'se3', 'a'), group(c, 'se3', 'b')
    o = c.call('h_approx', x=A + B, b=Z * 4, nio=4)
    c.no_throw(o)
    D = sub(A[:9], B[:9])
    d = sub(A[9:], B[9:])
    # Eigen isApprox: |x-y|^2 <= prec^2 min(|x|^2,|y|^2); a rotation has squared norm 3
    nr = dot(D, D) > 1e-12
    c.holds(c.Implies(nr, o.io[0] == 0), 'SO3 is_approx')
    c.holds(c.Implies(nr, o.io[1] == 0), 'SO3 is_approx_transform')
    c.holds(c.Implies(nr, o.io[2] == 0), 'SE3 is_approx (rotation)')
    c.holds(c.Implies(nr, o.io[3] == 0), 'SE3 is_approx_transform (rotation)')
    nt = dot(d, d) > 1e-12 * dot(A[9:], A[9:])
    c.holds(c.Implies(nt, o.io[2] == 0), 'SE3 is_approx (translation)')
    c.holds(c.Implies(nt, o.io[3] == 0), 'SE3 is_approx_transform (translation)')


@P.contract('a translation moved by any amount above the tolerance is never approx equal, at every scale of the translation')
def approx_near(c):
    R = c.rot('a')
    t, u = c.vec('t'), c.unit('u')
    k = c.real('k', 0, 1, pos=True, special=(1e-3, 1e-2, 1e-1))
    s = c.real('s', 0, 1, pos=True, special=(1e-3, 1e-4, 1e-2))
    t = scale(k, t)
    for B in (flat(R) + add(t, scale(s, u)), flat(R) + t):
        for X, Y in ((flat(R) + t, B), (B, flat(R) + t)):
            o = c.call('h_approx', x=X + Y, b=Z * 4, nio=4)
            c.no_throw(o)
            d = sub(X[9:], Y[9:])
            nt = c.Or(dot(d, d) > 2e-12 * dot(X[9:], X[9:]), dot(d, d) > 2e-12 * dot(Y[9:], Y[9:]))
            c.holds(c.Implies(nt, c.And(o.io[2] == 0, o.io[3] == 0)), 'SE3 is_approx of a moved translation')


@P.contract('a rotation turned by any angle above the tolerance is never approx equal')
def approx_turned(c):
    A = group(c, 'se3', 'a')
    u = c.unit('u')
    s = c.real('s', 1e-6, 1, pos=True, special=(1.1e-6, 2e-6, 1e-5, 1e-4, 1e-3, 1e-2))
    if c.symbolic:
        # every angle s other than a whole turn: R differs from the identity, and so A R from A
        # (the general statement is approx_discriminates; here B ranges over all matrices of that form)
        B = c.vec('b', 9)
        c.assume(dot(B, B) <= 4)
    else:
        B = flat(mm(mat(A, 0, 3, 3), rodrigues(c, u, s)))
    B = B + A[9:]
    D = sub(A[:9], B[:9])
    nr = dot(D, D) > 1e-12
    for X, Y in ((A, B), (B, A)):
        o = c.call('h_approx', x=X + Y, b=Z * 4, nio=4)
        c.no_throw(o)
        c.holds(c.Implies(nr, c.And(o.io[0] == 0, o.io[1] == 0, o.io[2] == 0, o.io[3] == 0)), 'is_approx of a turned rotation')


def interp_frames(G):
    nm = G.upper()

    def any_log(E, args, name):
        E.ctx.note_contract(nm + '::log returns some tangent vector (C03/C04 pin its value)')
        wr_vec(E, args[0], [E.ctx.real('log%d' % i) for i in range(3 if G == 'so3' else 6)])
    ov = [(r'resim::transforms::%s::log\(\) const$' % nm, any_log)]

    @P.contract(nm + ': interp keeps both frames at every fraction; with a new from frame it is (into, new from), rejected iff '
                'unframed or null', name=G + '_interp_frames', overrides=ov)
    def interp(c):
        ai, af, nf = fr(c, 'ai', 'af', 'nf')
        fa = framed(c, ai, af)
        A = group(c, G, 'a')
        f = c.real('f', -1, 2, special=(0.0, 1.0, -1.0))
        n = 9 if G == 'so3' else 12
        o = c.call('h_%s_finterp' % G, x=A + [f], k=[0], b=ai + af + Z, no=n, nbo=32)
        c.no_throw(o)
        frames_eq(c, o, 0, ai, af, 'interp')
        o = c.call('h_%s_finterp' % G, x=A + [f], k=[1], b=ai + af + nf, no=n, nbo=32)
        if c.throws_iff(o, c.Or(c.Not(fa), c.isnull(nf)), 'unframed or null'):
            return
        frames_eq(c, o, 0, ai, nf, 'interp with a new from frame')


interp_frames('so3')
interp_frames('se3')


@P.contract('framed vectors: isApprox holds for equal coordinates iff the frames agree, and never for clearly different coordinates')
def framed_vector_approx(c):
    p, q = fr(c, 'p', 'q')
    v, w = c.vec('v'), c.vec('w')
    o = c.call('h_fv_approx', x=v + v, b=p + q, nio=1)
    c.no_throw(o)
    c.holds(c.Iff(o.io[0] == 1, c.beq(p, q)), 'equal coordinates')
    o = c.call('h_fv_approx', x=v + w, b=p + q, nio=1)
    c.no_throw(o)
    d = sub(v, w)
    c.holds(c.Implies(dot(d, d) > 1e-12 * dot(v, v), o.io[0] == 0), 'different coordinates')
    c.holds(c.Implies(c.Not(c.beq(p, q)), o.io[0] == 0), 'different frames')


alias.groups(P, ['so3', 'se3'], dist=True, fv=True)
