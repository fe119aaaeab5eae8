"""Quintic Hermite segments between two-jets."""
import re
from .registry import Property
from .lib import *
from .symlib import *
from .c06 import fr, framed, frames_eq
from .c08 import jet, size

P = Property('C09', ['h_jets.cc', 'h_hist.cc'])
Z = [0] * 16

# the quintic Hermite basis: the only quintics with value/slope/curvature one of the unit vectors at 0 and at 1
BASIS = [([0, 0, 0, 10, -15, 6], 'dest_from_orig'), ([0, 1, 0, -6, 8, -3], 'd_orig'), ([0, 0, 0, -4, 7, -3], 'd_dest'),
         ([0, 0, .5, -1.5, 1.5, -.5], 'd2_orig'), ([0, 0, 0, .5, -1, .5], 'd2_dest')]


def poly(co, t):
    r = 0
    for a in reversed(co):
        r = r * t + a
    return r


def dpoly(co):
    return [i * a for i, a in enumerate(co)][1:]


for _k, (_co, _n) in enumerate(BASIS):
    @P.contract('%s: the quintic Hermite basis polynomial with its first and second derivative, for every t' % _n,
                name='quintic_' + _n)
    def quintic(c, k=_k, co=_co):
        t = c.real('t', -2, 3, special=(0.0, 1.0, 0.5))
        o = c.call('h_quintic', x=[t], k=[k], no=3)
        c.no_throw(o)
        c.eqv(o.o[0:3], [poly(co, t), poly(dpoly(co), t), poly(dpoly(dpoly(co)), t)], 'value and derivatives')

    @P.contract('%s: boundary values at 0 and 1' % _n, name='quintic_ends_' + _n)
    def ends(c, k=_k):
        for t in (0, 1):
            o = c.call('h_quintic', x=[t], k=[k], no=3)
            c.no_throw(o)
            want = {(0, 1): [1, 0, 0], (1, 0): [0, 1, 0], (2, 1): [0, 1, 0], (3, 0): [0, 0, 1], (4, 1): [0, 0, 1]}
            c.eqv(o.o[0:3], want.get((k, t), [0, 0, 0]), 't=%d' % t)


def EXP(G):
    return re.compile(r'resim::transforms::%s resim::transforms::%s::exp<|resim::transforms::%s::exp\(' % ((G.upper(),) * 3))


def LOG(G):
    return re.compile(r'resim::transforms::%s::log\(\) const$' % G.upper())


def install(c, ovs):
    c.E.overrides = c.E.overrides + ovs
    c.E._ov = {}


def mk_group(E, G, out, vals, frames):
    if frames:
        E.call('irv_mk_%s_f' % G, [out, buf(E, vals)] + list(frames))
    else:
        E.call('irv_mk_' + G, [out, buf(E, vals)])


def log_exp_inverse(c, G):
    """contract of log/exp (C03, C04): exp(log X) = X; anything else runs the real body"""
    known = []
    n = 3 if G == 'so3' else 6
    m = 9 if G == 'so3' else 12

    def log(E, args, name):
        X = ghost_read(E, 'irv_rd_' + G, args[1], m)
        w = [E.ctx.real('log%d_%d' % (len(known), i)) for i in range(n)]
        known.append((w, X))
        E.ctx.note_contract('%s::exp(log X) = X (C03/C04)' % G.upper())
        wr_vec(E, args[0], w)

    def exp(E, args, name):
        v = rd_vec(E, args[1], n)
        for w, X in known:
            if all(E.ctx.alg.is_zero(a - b) for a, b in zip(v, w)):
                return mk_group(E, G, args[0], X, args[2:])
        return call_body(E, name, args)
    install(c, [(LOG(G), log), (EXP(G), exp)])


def abstract_exp(c, G, t, dmap):
    """contract of exp for a time-dependent argument p(t) with [p, p'] = 0: d/dt exp(p) = hat(p') exp(p)"""
    n = 3 if G == 'so3' else 6
    cnt = [0]

    def log(E, args, name):
        cnt[0] += 1
        E.ctx.note_contract('%s::log returns some tangent vector (C03/C04 pin its value)' % G.upper())
        wr_vec(E, args[0], [E.ctx.real('log%d_%d' % (cnt[0], i)) for i in range(n)])

    def exp(E, args, name):
        cnt[0] += 1
        p = rd_vec(E, args[1], n)
        if t is None:
            w = None
        else:
            w = [deriv(x, t, dmap) for x in p]
            br = cross(p[:3], w[:3]) + ([] if G == 'so3' else sub(cross(p[:3], w[3:]), cross(w[:3], p[3:])))
            for x in br:
                pre_eq(E, x, 0, 'exp: the argument commutes with its derivative')
        E.ctx.note_contract('%s::exp: d/dt exp(p(t)) = hat(p\') exp(p) when [p,p\']=0 (C03/C04/C05)' % G.upper())
        mk_group(E, G, args[0], fresh_pose(E, G, 'E%d' % cnt[0], w, dmap), args[2:])

    ov = [(LOG(G), log), (EXP(G), exp)]
    if t is not None:
        N = size(G)
        m, d = (9, 3) if G == 'so3' else (12, 6)

        def times(E, args, name):
            cnt[0] += 1
            out = []
            for j in (1, 2):
                x = ghost_read(E, 'irv_rd_jl_' + G, args[j], N)
                consistent(E.ctx, G, x, t, dmap, 'operand of a jet product')
            w = [E.ctx.real('P%d.d%d' % (cnt[0], i)) for i in range(d)]
            w2 = [E.ctx.real('P%d.dd%d' % (cnt[0], i)) for i in range(d)]
            for a, b in zip(w, w2):
                dmap[a.a[0]] = b
            pose = fresh_pose(E, G, 'P%d' % cnt[0], w, dmap)
            E.ctx.note_contract('jet product obeys the product rule (C08)')
            E.call('irv_mk_jl_' + G, [args[0], args[1], args[2], buf(E, pose + w + w2)])
        ov.append((re.compile(r'resim::curves::TwoJetL<resim::transforms::%s>::operator\*\(' % G.upper()), times))
    install(c, ov)


def pose_deriv_ok(c, G, X, d, t, dmap, label):
    R, memo = m3(X), {}
    dR = [[deriv(x, t, dmap, memo) for x in r] for r in R]
    c.eqm(dR, mm(hat(d[:3]), R), label + ": A' = hat(d) A")
    if G == 'se3':
        dt = [deriv(x, t, dmap, memo) for x in X[9:12]]
        c.eqv(dt, add(cross(d[:3], X[9:12]), d[3:]), label + ": A' = hat(d) A (translation)")


def consistent(c, G, x, t, dmap, label):
    m, n = (9, 3) if G == 'so3' else (12, 6)
    d, d2 = x[m:m + n], x[m + n:m + 2 * n]
    pose_deriv_ok(c, G, x, d, t, dmap, label)
    c.eqv([deriv(v, t, dmap) for v in d], d2, label + ": d' = d2")


def mk(G):
    N = size(G)
    m, n = (9, 3) if G == 'so3' else (12, 6)

    def end(c, which):
        a, b = jet(c, G, 'a'), jet(c, G, 'b')
        if c.symbolic:
            log_exp_inverse(c, G)
        o = c.call('h_seg_' + G, x=a + b + [which], b=Z * 4, no=3 * N, nio=1, nbo=128)
        c.no_throw(o)
        j = (a, b)[which]
        c.eqv(o.o[0:m], j[:m], 'value', tol=1e-5)
        c.eqv(o.o[m:m + n], j[m:m + n], 'first derivative', tol=1e-5)
        c.eqv(o.o[m + n:N], j[m + n:], 'second derivative', tol=1e-5)

    P.contract(G.upper() + ' segment starts at the origin jet (value and both derivatives)', name=G + '_segment_start')(
        lambda c: end(c, 0))
    P.contract(G.upper() + ' segment ends at the destination jet (value and both derivatives)', name=G + '_segment_end')(
        lambda c: end(c, 1))

    @P.contract(G.upper() + ' segment: for every t the reported derivatives are the time derivatives of the reported pose',
                name=G + '_segment_derivatives')
    def derivatives(c):
        a, b = jet(c, G, 'a'), jet(c, G, 'b')
        t = c.real('t', 0.0002, 0.9998, special=(0.5, 0.25))
        c.assume(c.And(t > 0.0001, t < 0.9999) if not c.symbolic else c.And(t > 0, t < 1))
        if c.symbolic:
            dmap = {}
            abstract_exp(c, G, 't', dmap)
            o = c.call('h_seg_' + G, x=a + b + [t], b=Z * 4, no=3 * N, nio=1, nbo=128)
            c.no_throw(o)
            consistent(c, G, list(o.o[0:N]), 't', dmap, 'point')
            return
        h = 1e-4
        sc = lambda v: v[:m] + [y / 10 for y in v[m:]]
        a, b = sc(a), sc(b)
        f = lambda s: c.call('h_seg_' + G, x=a + b + [s], b=Z * 4, no=3 * N, nio=1, nbo=128)
        p, q, r = f(t - h), f(t), f(t + h)
        for o in (p, q, r):
            c.no_throw(o)
        d = q.o[m:m + n]
        M = hat(d[:3])
        for i in range(3):
            for j in range(3):
                num = (r.o[3 * i + j] - p.o[3 * i + j]) / (2 * h)
                c.near(num, dot(M[i], [q.o[3 * k + j] for k in range(3)]), 'rotation derivative', ntol=1e-4)
        if G == 'se3':
            want = add(cross(d[:3], q.o[9:12]), d[3:])
            c.nearv([(r.o[9 + i] - p.o[9 + i]) / (2 * h) for i in range(3)], want, 'translation derivative', ntol=1e-4)
        c.nearv([(r.o[m + i] - p.o[m + i]) / (2 * h) for i in range(n)], q.o[m + n:N], 'second derivative', ntol=1e-4)

    @P.contract(G.upper() + ' segment: construction throws iff the frames of the two jets differ; every point has those frames;'
                ' accessors return what was given', name=G + '_segment_frames')
    def frames(c):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        fa = framed(c, ai, af)
        framed(c, bi, bf)
        a, b = jet(c, G, 'a'), jet(c, G, 'b')
        t = c.real('t', 0, 1)
        if c.symbolic:
            abstract_exp(c, G, None, {})
        o = c.call('h_seg_' + G, x=a + b + [t], b=ai + af + bi + bf, no=3 * N, nio=1, nbo=128)
        if c.throws_iff(o, c.Not(c.And(c.beq(ai, bi), c.beq(af, bf))), 'frame mismatch'):
            return
        for i, nm in ((0, 'point'), (32, 'orig'), (64, 'dest'), (96, 'segment')):
            frames_eq(c, o, i, ai, af, nm)
        c.holds(c.Iff(o.io[0] == 1, fa), 'is_framed')
        c.eqv(o.o[N:2 * N], a, 'orig')
        c.eqv(o.o[2 * N:3 * N], b, 'dest')


mk('so3')
mk('se3')

from . import hist  # noqa: E402
hist.segments(P, 'so3', jet)
hist.segments(P, 'se3', jet)
