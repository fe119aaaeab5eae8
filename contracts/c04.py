from .registry import Property
from .lib import *
from .symlib import *

P = Property('C04', ['h_transforms.cc'])
FT = framed_too(P)
SP = (1e-3, 1e-4, 1.9e-3, 0.03, 0.09, 1.0, 3.05, 1e-9)


def vcoef(c, th):
    """coefficients of V = a I + b hat(w) + c w w^T, theta > 0"""
    s, co = c.sin(th), c.cos(th)
    a = s / th
    b = (1 - co) / (th * th)
    return a, b, (1 - a) / (th * th)


def Vmul(abc, w, t):
    a, b, cc = abc
    return add(add(scale(a, t), scale(b, cross(w, t))), scale(cc * dot(w, t), w))


@P.contract('exp-differential coefficients equal sin(t)/t, (1-cos t)/t^2, (1 - sin(t)/t)/t^2 for every angle', tol=1e-9)
def coeffs(c):
    th = c.real('th', 0, 10, pos=True, special=SP)
    o = c.call('h_exp_coeffs', x=[th * th], no=3)
    c.no_throw(o)
    a, b, cc = vcoef(c, th)
    c.near(o.o[0], a, 'a', ntol=1e-9)
    c.near(o.o[1], b, 'b', ntol=1e-8)
    # native evaluation of the reference cancels: compare loosely there
    c.near(o.o[2], cc, 'c', ntol=1e-3)


@P.contract('at angle 0 the coefficients are 1, 1/2, 1/6')
def coeffs_zero(c):
    o = c.call('h_exp_coeffs', x=[0.0], no=3)
    c.near(o.o[0], 1, 'a')
    c.near(o.o[1], 0.5, 'b')
    c.near(o.o[2], 1.0 / 6, 'c')


@FT('SE3 exp(w, v) = (exp(w), V(w) v) for every twist with w != 0')
def se3_exp(c):
    u, t = c.unit('u'), c.vec('t')
    th = c.real('th', 0, 10, pos=True, special=SP)
    w = scale(th, u)
    o = c.call('h_se3_exp', x=w + t, no=12)
    c.no_throw(o)
    c.eqm(m3(o.o), rodrigues(c, u, th), 'rotation part')
    c.nearv(vec(o.o, 9), Vmul(vcoef(c, th), w, t), 'translation part', rel=t, ntol=1e-8)


@FT('SE3 exp(0, v) = (I, v)')
def se3_exp_zero(c):
    t = c.vec('t')
    o = c.call('h_se3_exp', x=[0, 0, 0] + t, no=12)
    c.no_throw(o)
    c.eqm(m3(o.o), eye(3), 'rotation part')
    c.nearv(vec(o.o, 9), t, 'translation part', rel=t)


def log_at(c, R, w, t, h='h_se3_log'):
    if c.symbolic:
        c.E.overrides = c.E.overrides + [(re_(SO3_LOG), so3_log_contract(R, w))]
        c.E._ov = {}
    o = c.call(h, x=flat(R) + t, no=6)
    c.no_throw(o)
    return o


def re_(s):
    import re
    return re.compile(s)


@FT('SE3 log: exp(log(T)) = T for every pose with rotation angle in (0, pi)', timeout=20)
def se3_log(c):
    u, t = c.unit('u'), c.vec('t')
    th = c.real('th', 0, 3.14159, pos=True, special=SP, bounded=True)
    c.assume(c.And(th <= 3.14159, c.sin(th) > 0, c.cos(th) < 1))
    R = rodrigues(c, u, th)
    w = scale(th, u)
    o = log_at(c, R, w, t)
    c.nearv(o.o[0:3], w, 'rotation part', ntol=1e-5)
    # tail is V(w)^-1 t
    tau = o.o[3:6]
    if c.symbolic:
        tau = list(tau)
    c.nearv(Vmul(vcoef(c, th), w, tau), t, 'V(w) * translation part = t', rel=t, ntol=1e-9)


@FT('SE3 log of a pure translation is that translation')
def se3_log_translation(c):
    t = c.vec('t')
    o = c.call('h_se3_log', x=flat(eye(3)) + t, no=6)
    c.no_throw(o)
    c.nearv(o.o[0:6], [0, 0, 0] + t, 'log', rel=t)


@FT('SE3 log at rotation angle pi: exp(log(T)) = T')
def se3_log_pi(c):
    u, t = c.unit('u'), c.vec('t')
    R = [[2 * u[i] * u[j] - (1 if i == j else 0) for j in range(3)] for i in range(3)]
    pi = c.fn('pi')
    w = scale(pi, u)
    if c.symbolic:
        o = log_at(c, R, w, t)
    else:
        o = c.call('h_se3_log', x=flat(R) + t, no=6)
        c.no_throw(o)
        w = list(o.o[0:3])
        if dot(w, scale(pi, u)) < 0:
            u = scale(-1, u)
        c.nearv(w, scale(pi, u), 'rotation part', ntol=1e-5)
    # V(w) at angle pi: a = 0, b = 2/pi^2, c = 1/pi^2
    b, cc = 2 / (pi * pi), 1 / (pi * pi)
    tau = list(o.o[3:6])
    c.nearv(Vmul((0, b, cc), w, tau), t, 'V(w) * translation part = t', rel=t, ntol=1e-5)


@P.contract('exp(log(T)) = T composed through the code, all poses', bounded_only='end-to-end composition of the two '
            'contracts above; a native cross-check, the proof is by the contracts se3_exp and se3_log', tol=1e-6)
def se3_roundtrip(c):
    A = flat(c.rot('a')) + c.vec('t')
    l = c.call('h_se3_log', x=A, no=6)
    c.no_throw(l)
    o = c.call('h_se3_exp', x=l.o[0:6], no=12)
    c.eqv(o.o[0:12], A, 'exp(log(T))')
