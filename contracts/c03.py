from .registry import Property
from .lib import *

P = Property('C03', ['h_transforms.cc'])
FT = framed_too(P)


@FT('exp is the rotation about w by |w| (Rodrigues), for every non-zero w')
def so3_exp(c):
    u = c.unit('u')
    th = c.real('th', 1e-9, 40, pos=True, special=(1e-3, 1e-5, 9e-7, 3e-7, 1e-8, 3.14159, 6.2831, 1.0))
    o = c.call('h_so3_exp', x=scale(th, u), no=9)
    c.no_throw(o)
    c.eqm(m3(o.o), rodrigues(c, u, th), 'exp(theta u)')


@FT('exp(0) is the identity')
def so3_exp_zero(c):
    o = c.call('h_so3_exp', x=[0, 0, 0], no=9)
    c.no_throw(o)
    c.eqm(m3(o.o), eye(3), 'exp(0)')


@P.contract('exp maps every tangent vector to a rotation; exp(-w) = exp(w)^-1; one-parameter subgroup')
def so3_exp_group(c):
    u = c.unit('u')
    th = c.real('th', 0, 10, pos=True)
    o = c.call('h_so3_exp', x=scale(th, u), no=9)
    M = m3(o.o)
    c.eqm(mm(M, tr(M)), eye(3), 'orthonormal')
    c.eq(det3(M), 1, 'det 1')
    n = c.call('h_so3_exp', x=scale(-th, u), no=9)
    c.eqm(m3(n.o), tr(M), 'exp(-w)')
    ph = c.real('ph', 0, 10, pos=True)
    p = c.call('h_so3_exp', x=scale(ph, u), no=9)
    q = c.call('h_so3_exp', x=scale(ph + th, u), no=9)
    c.eqm(m3(q.o), mm(M, m3(p.o)), 'exp((s+t)u) = exp(su) exp(tu)')


@FT('exp(log(R)) = R for every rotation R')
def so3_exp_log(c):
    A = c.rot('a')
    l = c.call('h_so3_log', x=flat(A), no=3)
    c.no_throw(l)
    o = c.call('h_so3_exp', x=l.o[0:3], no=9)
    c.no_throw(o)
    c.eqm(m3(o.o), A, 'exp(log R)', tol=1e-7)


@P.contract('log returns the principal logarithm: |log(R)| <= pi for every rotation')
def so3_log_principal(c):
    A = c.rot('a')
    l = c.call('h_so3_log', x=flat(A), no=3)
    c.no_throw(l)
    c.holds(dot(l.o[0:3], l.o[0:3]) <= 9.869604401089402, '|log R| <= pi')


def log_exp(sg):
    def so3_log_exp(c):
        n = c.unit('n', nonneg=True)
        u = [a * b for a, b in zip(sg, n)]
        ph = c.real('ph', 0, 1.57, pos=True, special=(1e-3, 1e-4, 1.5, 0.75))
        # w = 2*ph*u with ph in (0, pi/2): both sin(ph) and cos(ph) are positive there
        c.principal(ph)
        c.assume_nonneg(c.sin(ph), c.cos(ph))
        c.assume(c.And(c.sin(ph) > 0, c.cos(ph) > 0, ph < 1.5707963267948966))
        w = scale(2 * ph, u)
        A = rodrigues(c, u, 2 * ph)
        l = c.call('h_so3_log', x=flat(A), no=3)
        c.no_throw(l)
        c.eqv(l.o[0:3], w, 'log(exp(w))')
    return so3_log_exp


for _s in [(a, b, d) for a in (1, -1) for b in (1, -1) for d in (1, -1)]:
    _n = ''.join('+' if x > 0 else '-' for x in _s)
    P.contract('log(exp(w)) = w for every |w| < pi, w in the octant ' + _n, name='so3_log_exp[%s]' % _n, tol=1e-5,
               timeout=20)(log_exp(_s))
