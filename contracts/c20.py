"""Messages of two-jets, curves and trajectories."""
from .registry import Property
from .lib import *
from .symlib import *
from .c06 import fr, framed, frames_eq, Z
from .c08 import jet, size
from .c09 import log_exp_inverse
from .c10 import ctl
from .c11 import Motion, poses
from . import c19

P = Property('C20', ['h_pb_curves.cc'], bound='curves and trajectories of at most 3 control points', assumptions=c19.P.assumptions)
DOF = {'so3': 3, 'se3': 6}
BIG = (1 << 63) - 1


def pair(c, *Gs):
    if c.symbolic:
        for G in Gs:
            log_exp_inverse(c, G)


def mk(G, S):
    nm = 'TwoJet%s<%s>' % (S.upper(), G.upper())
    N = size(G)
    d = DOF[G]

    def rt(c, into=0):
        pair(c, G)
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        framed(c, ai, af)
        framed(c, bi, bf)
        a, b = jet(c, G, 'a'), jet(c, G, 'b')
        o = c.call('h_pb_jet%s_%s' % (S, G), x=a + b, k=[into], b=ai + af + bi + bf, no=N, nio=1, nbo=32)
        c.no_throw(o)
        c.eqv(vec(o.o, 0, N), a, 'jet', tol=1e-9)
        frames_eq(c, o, 0, ai, af, 'restored')
        c.ieq(o.io[0], 1, 'no message')

    P.contract(nm + ': unpack(pack(j)) has the same pose, frames and both derivatives, also over a used message; packing into no message is rejected',
               name='jet%s_%s' % (S, G))(rt)
    P.contract(nm + ': unpacking into a jet in use gives the packed jet', name='jet%s_%s_over' % (S, G))(lambda c: rt(c, 1))

    for n1, n2, p in [(d, d, 1), (d, d, 0)] + [(n, d, 1) for n in range(8) if n != d] + [(d, n, 1) for n in range(8) if n != d]:
        @P.contract('%s message with %d and %d derivative numbers (needs %d), pose %s: accepted exactly when all parts are there' % (
            nm, n1, n2, d, 'present' if p else 'missing'), name='jet%s_%s_message[%d,%d,%d]' % (S, G, n1, n2, p))
        def msg(c, n1=n1, n2=n2, p=p):
            pair(c, G)
            x = c.vec('v', 16)
            o = c.call('h_pb_bad%s_%s' % (S, G), x=x, k=[n1, n2, p], no=N, nio=1, nbo=32)
            c.no_throw(o)
            if (n1, n2, p) != (d, d, 1):
                c.ieq(o.io[0], 1, 'rejected')
                return
            c.ieq(o.io[0], 0, 'accepted')
            c.eqv(vec(o.o, N - 2 * d, 2 * d), x[:d] + x[8:8 + d], 'derivatives', tol=0)


for _G in ('so3', 'se3'):
    for _S in 'lr':
        mk(_G, _S)


def curve(c, G, n):
    """a valid curve: increasing times, one pair of frames"""
    x = ctl(c, G, n)
    N = size(G)
    a, f = fr(c, 'i', 'f')
    framed(c, a, f)
    if not c.symbolic:
        ts = sorted(x[i * (N + 1)] for i in range(n))
        for i in range(n):
            x[i * (N + 1)] = ts[i] + 0.125 * i
    else:
        for i in range(1, n):
            c.assume(x[i * (N + 1)] > x[(i - 1) * (N + 1)])
    return x, (a + f) * n, a, f


def check_curve(c, o, x, n, G, a, f):
    N = size(G)
    m, d = N - 2 * DOF[G], DOF[G]
    c.ieq(o.io[8], n, 'control points')
    c.ieq(o.io[9], max(0, n - 1), 'segments')
    for i in range(n):
        c.eq(o.o[i * (N + 1)], x[i * (N + 1)], 'time %d' % i, tol=0)
        c.eqv(vec(o.o, i * (N + 1) + 1, N), x[i * (N + 1) + 1:(i + 1) * (N + 1)], 'control point %d' % i, tol=1e-9)
        frames_eq(c, o, 32 * i, a, f, 'control point %d' % i)
    for i in range(1, n):
        s = 4 * (N + 1) + (i - 1) * (2 + 2 * N)
        p, q = x[(i - 1) * (N + 1):i * (N + 1)], x[i * (N + 1):(i + 1) * (N + 1)]
        dt = q[0] - p[0]
        c.eqv(vec(o.o, s, 2), [p[0], q[0]], 'segment %d times' % i)
        for k, e in ((0, p), (1, q)):
            e = e[1:]
            c.eqv(vec(o.o, s + 2 + k * N, N), e[:m] + scale(dt, e[m:m + d]) + scale(dt * dt, e[m + d:]), 'segment %d end %d' % (i, k), tol=1e-9)


CASES = [(n, m, 0) for n, m in ((0, 0), (1, 0), (2, 0), (3, 0), (0, 2), (1, 2), (2, 1))] + [(0, 2, 1), (1, 2, 1), (2, 1, 1)]


def mkt(G):
    N = size(G)
    NO = 4 * (N + 1) + 3 * (2 + 2 * N)
    for n, old, into in CASES:
        @P.contract('TCurve<%s> of %d control points packed over a message%s of %d: the same times, jets and frames in the same order, the same segments' % (
            G.upper(), n, ' and unpacked into a curve' * into, old), name='tcurve_%s%s[%d,%d]' % (G, '_over' * into, n, old))
        def rt(c, n=n, old=old, into=into):
            pair(c, G)
            x, b, a, f = curve(c, G, max(n, old))
            o = c.call('h_pb_tc_' + G, x=x, k=[n, old, into], b=b, no=NO, nio=10, nbo=128)
            c.no_throw(o)
            check_curve(c, o, x, n, G, a, f)
            c.ieq(o.io[0], 1, 'no message')

    for n in (2, 3):
        @P.contract('TCurve<%s> message of %d arbitrary control points: rejected exactly when building the curve from them is' % (G.upper(), n),
                    name='tcurve_%s_message[%d]' % (G, n))
        def anym(c, n=n):
            pair(c, G)
            x = ctl(c, G, n)
            b, fs = [], []
            for i in range(n):
                a, f = fr(c, 'i%d' % i, 'f%d' % i)
                if not c.symbolic and i and c.rng.random() < .8:
                    a, f = fs[0]
                framed(c, a, f)
                fs.append((a, f))
                b += a + f
            o = c.call('h_pb_anytc_' + G, x=x, k=[n], b=b, no=NO, nio=10, nbo=128)
            c.no_throw(o)
            ok = c.And(*[c.And(x[i * (N + 1)] > x[(i - 1) * (N + 1)], c.beq(fs[i][0], fs[0][0]), c.beq(fs[i][1], fs[0][1])) for i in range(1, n)])
            if not c.branch(ok):
                c.ieq(o.io[0], 1, 'rejected')
                return
            c.ieq(o.io[0], 0, 'accepted')
            check_curve(c, o, x, n, G, *fs[0])


mkt('so3')
mkt('se3')
for _n, _old in ((0, 0), (1, 0), (2, 0), (3, 0), (0, 2), (1, 2), (2, 1)):
    @P.contract('trajectory of %d control points packed over a message of %d: the same start time to the nanosecond and the same curve' % (_n, _old),
                name='trajectory[%d,%d]' % (_n, _old))
    def traj(c, n=_n, old=_old):
        G = 'se3'
        pair(c, G)
        N = size(G)
        x, b, a, f = curve(c, G, max(n, old))
        t = c.int('start', -BIG - 1, BIG, special=(0, 1, -1, 10 ** 9, -10 ** 9, 10 ** 9 - 1, 1 - 10 ** 9, -1500000000, BIG, -BIG - 1))
        u = c.int('other', -BIG - 1, BIG)
        o = c.call('h_pb_tr', x=x, k=[n, old, t, u], b=b, no=4 * (N + 1) + 3 * (2 + 2 * N), nio=10, nbo=128)
        c.no_throw(o)
        c.ieq(o.io[1], t, 'start time')
        check_curve(c, o, x, n, G, a, f)
        c.ieq(o.io[0], 1, 'no message')


def check_d(c, o, ps, n, fs):
    c.ieq(o.io[8], n, 'control points')
    c.ieq(o.io[9], max(0, n - 1), 'segments')
    for i in range(n):
        c.eqv(vec(o.o, 13 * i + 1, 12), ps[i], 'control point %d' % i, tol=1e-9)
        frames_eq(c, o, 32 * i, fs[i][0], fs[i][1], 'control point %d' % i)


for _n, _old, _into in CASES:
    @P.contract('DCurve<SE3> of %d control points packed over a message%s of %d: the same poses, frames and arc lengths in the same order' % (
        _n, ' and unpacked into a curve' * _into, _old), name='dcurve%s[%d,%d]' % ('_over' * _into, _n, _old))
    def dcurve(c, n=_n, old=_old, into=_into):
        Motion(c)
        m = max(n, old)
        ps = poses(c, m)
        a, f = fr(c, 'i', 'f')
        framed(c, a, f)
        o = c.call('h_pb_dc', x=sum(ps, []), k=[n, old, into], b=(a + f) * m, no=56, nio=10, nbo=128)
        c.no_throw(o)
        check_d(c, o, ps, n, [(a, f)] * n)
        for i in range(n):
            c.eq(o.o[13 * i], o.o[52 + i], 'arc length %d' % i, tol=1e-9)
        c.ieq(o.io[0], 1, 'no message')

for _n in (2, 3):
    @P.contract('DCurve<SE3> message of %d arbitrary poses: rejected exactly when building the curve from them is' % _n, name='dcurve_message[%d]' % _n)
    def anyd(c, n=_n):
        Motion(c)
        ps = poses(c, n)
        b, fs = [], []
        for i in range(n):
            a, f = fr(c, 'i%d' % i, 'f%d' % i)
            if not c.symbolic and i and c.rng.random() < .8:
                a, f = fs[0]
            framed(c, a, f)
            fs.append((a, f))
            b += a + f
        o = c.call('h_pb_anydc', x=sum(ps, []), k=[n], b=b, no=56, nio=10, nbo=128)
        c.no_throw(o)
        c.ieq(o.io[0], o.io[1], 'rejected exactly when some append is')
        if c.branch(o.io[0] == 0):
            check_d(c, o, ps, n, fs)

for _k, _nm in enumerate(('TCurve<SO3>', 'TCurve<SE3>', 'DCurve<SE3>', 'Trajectory')):
    @P.contract('long %s (up to 300 control points) packed over another: restored, point by point' % _nm, name='long[%s]' % _nm, samples=12, bounded_samples=12, bound=None,
                bounded_only='many control points: the pack and unpack loops are executed natively on random objects of up to 300 points')
    def long_(c, k=_k):
        n = c.int('n', 0, 300, (4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300))
        old = c.int('old', 0, 300, (0, 1, 17, 65, 300))
        o = c.call('h_pb_long', k=[k, n, old, c.int('seed'), c.int('start')], no=2, nio=1)
        c.no_throw(o)
        c.ieq(o.io[0], n, 'control points')
        c.holds(o.o[0] < 1e-6, 'restored')
        c.holds(o.o[1] < 1e-6, 'restored again')
