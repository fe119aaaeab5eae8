"""Time-parametrised curves."""
import math
import re
from irv.engine import Ptr
from .registry import Property
from .lib import *
from .symlib import *
from .c06 import fr, framed, frames_eq
from .c08 import jet, size
from .c09 import install, consistent, fresh_pose
from .symseq import Seq, SymArr, give, search_overrides

P = Property('C10', ['h_curves.cc', 'h_hist.cc'], bound='at most 4 control points')
Z = [0] * 16


def ctl(c, G, n):
    x = []
    for i in range(n):
        x += [c.real('t%d' % i, -5, 5, special=(0.0, 1.0, 2.0, 3.0))] + jet(c, G, 'p%d' % i)
    return x


def frames(c, n):
    b, out = [], []
    for i in range(n):
        a, f = fr(c, 'i%d' % i, 'f%d' % i)
        framed(c, a, f)
        b += a + f
        out.append((a, f))
    return b, out


def increasing(c, x, n, N):
    for i in range(1, n):
        c.assume(x[i * (N + 1)] > x[(i - 1) * (N + 1)])


def times_native(c, x, n, N):
    """native runs: sort the times so that most samples are valid curves"""
    if c.symbolic:
        return
    ts = sorted(x[i * (N + 1)] for i in range(n))
    for i in range(n):
        x[i * (N + 1)] = ts[i] + 0.125 * i


def segment_contract(c, G, t=None, dmap=None, ends=None):
    """TCurveSegment::point_at by its contract (C09): the origin jet at 0, the destination jet at 1, in between a jet whose
    derivatives with respect to the normalised time are consistent"""
    N = size(G)
    m, d = (9, 3) if G == 'so3' else (12, 6)
    cnt = [0]

    def f(E, args, name):
        s = E.real(args[2])
        cx = E.ctx
        cx.note_contract('TCurveSegment::point_at (C09)')
        for v, acc in ((0, 'orig'), (1, 'dest')):
            if cx.alg.is_zero(s - v):
                j = E.call('_ZNK5resim6curves13TCurveSegmentINS_10transforms3%sEE4%sEv' % (G.upper(), acc), [args[1]])
                x = ghost_read(E, 'irv_rd_jl_' + G, j, N)
                E.call('irv_mk_jl1_' + G, [args[0], j, buf(E, x)])
                return
        cnt[0] += 1
        nm = 'S%d' % cnt[0]
        if ends:
            a, b = ends
            for e, acc in ((a, 'orig'), (b, 'dest')):
                j = E.call('_ZNK5resim6curves13TCurveSegmentINS_10transforms3%sEE4%sEv' % (G.upper(), acc), [args[1]])
                dt = b[0] - a[0]
                cx.eqv(ghost_read(E, 'irv_rd_jl_' + G, j, N), e[1:1 + m] + scale(dt, e[1 + m:1 + m + d]) + scale(dt * dt, e[1 + m + d:]), 'the segment between the neighbours')
        w = [cx.real('%s.d%d' % (nm, i)) for i in range(d)]
        w2 = [cx.real('%s.dd%d' % (nm, i)) for i in range(d)]
        if t is not None:
            ds = deriv(s, t, dmap)
            for a, b in zip(w, w2):
                dmap[a.a[0]] = b * ds
            pose = fresh_pose(E, G, nm, [ds * a for a in w], dmap)
        else:
            pose = fresh_pose(E, G, nm)
        cx.holds(s >= 0, 'precondition: normalised time >= 0')
        cx.holds(s <= 1, 'precondition: normalised time <= 1')
        j = E.call('_ZNK5resim6curves13TCurveSegmentINS_10transforms3%sEE4origEv' % G.upper(), [args[1]])
        E.call('irv_mk_jl1_' + G, [args[0], j, buf(E, pose + w + w2)])
    install(c, [(re.compile(r'resim::curves::TCurveSegment<resim::transforms::%s>::point_at\(double\) const' % G.upper()), f)])


def mk(G):
    N = size(G)
    m, d = (9, 3) if G == 'so3' else (12, 6)
    nm = G.upper()

    def check_state(c, o, x, n, kept, label, fs=None):
        """the curve consists of exactly the kept points"""
        c.ieq(o.io[8], len(kept), label + ': control points')
        c.ieq(o.io[9], max(0, len(kept) - 1), label + ': segments')
        for p, i in enumerate(kept):
            c.eqv(o.o[p * (N + 1):(p + 1) * (N + 1)], x[i * (N + 1):(i + 1) * (N + 1)], label + ': control point')
            if fs:
                frames_eq(c, o, 32 * p, fs[i][0], fs[i][1], label + ': control point')
        base = 4 * (N + 1)
        for p in range(1, len(kept)):
            i, j = kept[p - 1], kept[p]
            a, b = x[i * (N + 1):(i + 1) * (N + 1)], x[j * (N + 1):(j + 1) * (N + 1)]
            dt = b[0] - a[0]
            s = base + (p - 1) * (2 + 2 * N)
            c.eqv(o.o[s:s + 2], [a[0], b[0]], label + ': segment times')
            for k, e in ((0, a), (1, b)):
                q = o.o[s + 2 + k * N:s + 2 + (k + 1) * N]
                e = e[1:]
                c.eqv(q, e[:m] + scale(dt, e[m:m + d]) + scale(dt * dt, e[m + d:]), label + ': segment end')

    for n in (1, 2, 3):
        @P.contract('%s curve, %d points appended one at a time: a point is rejected iff its time is not later than the last '
                    'one or its frames differ, a rejected point changes nothing, accepted points and segments are exactly as '
                    'given' % (nm, n), name='%s_append[%d]' % (G, n))
        def append(c, n=n):
            x = ctl(c, G, n)
            b, fs = frames(c, n)
            o = c.call('h_tcurve_' + G, x=x, k=[n], b=b, no=4 * (N + 1) + 3 * (2 + 2 * N), nio=10, nbo=128)
            c.no_throw(o)
            kept = [0]
            c.ieq(o.io[0], 0, 'the first point is accepted')
            for i in range(1, n):
                l = kept[-1]
                ok = c.And(x[i * (N + 1)] > x[l * (N + 1)], c.beq(fs[i][0], fs[l][0]), c.beq(fs[i][1], fs[l][1]))
                if c.branch(ok):
                    c.ieq(o.io[i], 0, 'valid point accepted')
                    kept.append(i)
                else:
                    c.ieq(o.io[i], 1, 'invalid point rejected')
            check_state(c, o, x, n, kept, 'state', fs)

    for how in range(3):
        @P.contract('%s curve: bulk construction (%d) equals appending in order; throws iff some append would' % (nm, how),
                    name='%s_bulk[%d]' % (G, how))
        def bulk(c, how=how):
            n = 3
            x = ctl(c, G, n)
            times_native(c, x, n, N)
            if not c.symbolic and c.int('swap', 0, 3) == 0:
                i = c.int('at', 0, 1) * (N + 1)
                x[i], x[i + N + 1] = x[i + N + 1], x[i]
            o = c.call('h_tbulk_' + G, x=x, k=[n, how], b=Z * 6, no=4 * (N + 1) + 3 * (2 + 2 * N), nio=10, nbo=128)
            bad = c.Or(x[N + 1] <= x[0], x[2 * (N + 1)] <= x[N + 1])
            if c.throws_iff(o, bad, 'times'):
                return
            check_state(c, o, x, n, [0, 1, 2], 'bulk')

    for n in (0, 1, 2, 3):
        @P.contract('%s curve with %d points: start/end time and frames; all throw iff the curve is empty' % (nm, n),
                    name='%s_info[%d]' % (G, n))
        def info(c, n=n):
            x = ctl(c, G, n)
            i, f = fr(c, 'i', 'f')
            fa = framed(c, i, f)
            times_native(c, x, n, N)
            increasing(c, x, n, N)
            o = c.call('h_tinfo_' + G, x=x, k=[n], b=(i + f) * n, no=2, nio=10, nbo=32)
            c.no_throw(o)
            if n == 0:
                c.ieq(o.io[8], 31, 'every query of an empty curve throws')
                return
            c.ieq(o.io[8], 0, 'no query throws')
            c.eqv(o.o[0:2], [x[0], x[(n - 1) * (N + 1)]], 'start and end time')
            frames_eq(c, o, 0, i, f, 'frames')
            c.holds(c.Iff(o.io[9] == 1, fa), 'is_framed')

    for n in (0, 1, 2, 3, 4):
        @P.contract('%s curve with %d points: a query throws iff there are fewer than two points or it lies outside '
                    '[start, end]; frames of the point are those of the curve' % (nm, n), name='%s_range[%d]' % (G, n))
        def rng(c, n=n):
            x = ctl(c, G, n)
            i, f = fr(c, 'i', 'f')
            framed(c, i, f)
            times_native(c, x, n, N)
            increasing(c, x, n, N)
            t = c.real('t', -6, 6)
            if n > 1:
                t = edge(c, t, x[0], x[(n - 1) * (N + 1)])
            if c.symbolic:
                segment_contract(c, G)
            o = c.call('h_tat_' + G, x=x + [t], k=[n], b=(i + f) * n, no=N, nio=1, nbo=32)
            c.no_throw(o)
            if n < 2:
                c.ieq(o.io[0], 1, 'fewer than two points')
                return
            out = c.Or(t < x[0], t > x[(n - 1) * (N + 1)])
            if c.branch(out):
                c.ieq(o.io[0], 1, 'outside the time range')
            else:
                c.ieq(o.io[0], 0, 'inside the time range')
                frames_eq(c, o, 0, i, f, 'point')

    for n in (2, 3, 4):
        @P.contract('%s curve with %d points: at the time of each control point the curve is that control point (pose and '
                    'both derivatives)' % (nm, n), name='%s_interpolates[%d]' % (G, n))
        def interp(c, n=n):
            x = ctl(c, G, n)
            times_native(c, x, n, N)
            increasing(c, x, n, N)
            if c.symbolic:
                segment_contract(c, G)
            for i in range(n):
                o = c.call('h_tat_' + G, x=x + [x[i * (N + 1)]], k=[n], b=Z * 2 * n, no=N, nio=1, nbo=32)
                c.no_throw(o)
                c.ieq(o.io[0], 0, 'not rejected')
                c.eqv(o.o[0:N], x[i * (N + 1) + 1:(i + 1) * (N + 1)], 'control point %d' % i, tol=1e-5)

        @P.contract('%s curve with %d points: at every time the reported velocity and acceleration are the time derivatives '
                    'of the pose' % (nm, n), name='%s_derivatives[%d]' % (G, n))
        def derivs(c, n=n):
            x = ctl(c, G, n)
            if c.symbolic:
                increasing(c, x, n, N)
                t = c.real('t', -5, 5)
                c.assume(c.And(t > x[0], t < x[(n - 1) * (N + 1)]))
                dmap = {}
                segment_contract(c, G, 't', dmap)
                o = c.call('h_tat_' + G, x=x + [t], k=[n], b=Z * 2 * n, no=N, nio=1, nbo=32)
                c.no_throw(o)
                c.ieq(o.io[0], 0, 'not rejected')
                consistent(c, G, list(o.o[0:N]), 't', dmap, 'point')
                return
            for i in range(n):
                x[i * (N + 1)] = 1.25 * i + 0.3 * (i % 2)
                for j in range(m + 1, N + 1):
                    x[i * (N + 1) + j] /= 10
            f = c.real('t', -5, 5)
            f = 0.01 + 0.98 * (f + 5) / 10 if -5 <= f <= 5 else 0.37
            t = f * x[(n - 1) * (N + 1)]
            h = 1e-4
            c.assume(all(abs(t - x[i * (N + 1)]) > 3 * h for i in range(n)))
            p, q, r = [c.call('h_tat_' + G, x=x + [s], k=[n], b=Z * 2 * n, no=N, nio=1, nbo=32) for s in (t - h, t, t + h)]
            for o in (p, q, r):
                c.no_throw(o)
                c.ieq(o.io[0], 0, 'not rejected')
            w = q.o[m:m + d]
            M = hat(w[:3])
            for i in range(3):
                for j in range(3):
                    num = (r.o[3 * i + j] - p.o[3 * i + j]) / (2 * h)
                    c.near(num, dot(M[i], [q.o[3 * k + j] for k in range(3)]), 'rotation derivative', ntol=1e-4)
            if G == 'se3':
                want = add(cross(w[:3], q.o[9:12]), w[3:])
                c.nearv([(r.o[9 + i] - p.o[9 + i]) / (2 * h) for i in range(3)], want, 'translation derivative', ntol=1e-4)
            c.nearv([(r.o[m + i] - p.o[m + i]) / (2 * h) for i in range(d)], q.o[m + d:N], 'second derivative', ntol=1e-4)


def bbuf(E, vals):
    o = E.new_obj(max(1, len(vals)), 'arg', 'ghost')
    for i, v in enumerate(vals):
        E.put(o, i, 1, v)
    return Ptr(o, 0)


class Curve:
    """a curve with an arbitrary number n >= lo of control points (natively: up to 40)"""

    def __init__(self, c, G, lo=2, fr=None, curve=None):
        self.c, self.G, self.N = c, G, size(G)
        self.b = fr or Z * 2
        if c.symbolic:
            E = c.E
            c.separable = True
            self.n = c.int('n', lo, 1 << 40)
            self.seq = Seq(c, self.n, self.point, lambda v, w: c.assume(v[0] < w[0]))
            install(c, search_overrides())
            curve = curve or E.call('irv_tc_new_' + G, [])
            cap = c.int('room', 1, 1 << 40)
            for w, n, build in ((0, self.n, self.ctl), (1, self.n - 1, self.seg)):
                arr = SymArr(E, n, n + cap, E.call('irv_tc_size_' + G, [w]), build, ('control_pts', 'segments')[w])
                give(E, E.call('irv_tc_vec_' + G, [curve, w]), arr)
        else:
            self.n = max(lo, c.int('n', lo, 40, (lo, 2, 3, 4, 5, 8, 9, 16, 17, 33)))
            self.pts = [self.point(i, i) for i in range(self.n)]
            ts = sorted(p[0] for p in self.pts)
            for i, p in enumerate(self.pts):
                p[0] = ts[i] + 0.125 * i

    def point(self, k, i):
        return [self.c.real('T%d' % k, -5, 5, special=(0.0, 1.0))] + jet(self.c, self.G, 'J%d' % k)

    def ctl(self, E, p, i):
        v = self.seq.at(i)
        E.call('irv_mk_ctl_' + self.G, [p, v[0], buf(E, v[1:]), bbuf(E, self.b)])

    def seg(self, E, p, i):
        v, w = self.seq.at(i), self.seq.at(i + 1)
        E.call('irv_mk_seg_' + self.G, [p, v[0], buf(E, v[1:]), w[0], buf(E, w[1:]), bbuf(E, self.b)])

    def at(self, i):
        return self.seq.at(i) if self.c.symbolic else self.pts[i]

    def index(self, name, m=0):
        """an arbitrary index below n - m"""
        if self.c.symbolic:
            q = self.c.int(name, 0, 1 << 40)
            self.c.assume(q < self.n - m)
            return q
        return self.c.int(name, 0, 1 << 40) % (self.n - m)

    def x(self):
        return [] if self.c.symbolic else [v for p in self.pts for v in p]

    def call(self, t, no=0):
        return self.c.call('h_tany_at_' + self.G, x=[t] + self.x(), k=[0 if self.c.symbolic else self.n],
                           b=self.b * (1 if self.c.symbolic else self.n), no=self.N + 2, nio=2, nbo=64)


def mk_any(G):
    N = size(G)
    m, d = (9, 3) if G == 'so3' else (12, 6)
    nm = G.upper()
    OPT = dict(soft=True, bound=None, budget=60.0, samples=40)

    @P.contract('%s curve of any length: at the time of any control point the curve is that control point' % nm, name=G + '_any_interpolates', **OPT)
    def interp(c):
        v = Curve(c, G)
        if c.symbolic:
            segment_contract(c, G)
        p = v.at(v.index('q'))
        o = v.call(p[0])
        c.no_throw(o)
        c.ieq(o.io[0], 0, 'not rejected')
        c.eqv(o.o[0:N], p[1:], 'control point', tol=1e-5)

    @P.contract('%s curve of any length: start and end time and frames; a query is rejected iff it lies outside [start, end], otherwise the point has the frames of the curve' % nm,
                name=G + '_any_range', **OPT)
    def rng(c):
        i, f = fr(c, 'i', 'f')
        fa = framed(c, i, f)
        v = Curve(c, G, fr=i + f)
        if c.symbolic:
            segment_contract(c, G)
        a, b = v.at(0)[0], v.at(v.n - 1)[0]
        t = edge(c, c.real('t', -6, 6), a, b)
        o = v.call(t)
        c.no_throw(o)
        c.eqv(o.o[N:N + 2], [a, b], 'start and end time')
        c.holds(c.Iff(o.io[1] == 1, fa), 'is_framed')
        frames_eq(c, o, 32, i, f, 'frames')
        if c.branch(c.Or(t < a, t > b)):
            c.ieq(o.io[0], 1, 'outside the time range')
        else:
            c.ieq(o.io[0], 0, 'inside the time range')
            frames_eq(c, o, 0, i, f, 'point')

    @P.contract('%s curve of any length: between two control points the reported velocity and acceleration are the time derivatives of the pose, '
                'and the segment used is the one between them' % nm, name=G + '_any_derivatives', **OPT)
    def derivs(c):
        v = Curve(c, G)
        if not c.symbolic:
            q = v.index('q', 1)
            a, b = v.at(q), v.at(q + 1)
            ts = [p[0] for p in v.pts]
            fr_ = 0.01 + 0.98 * abs(math.sin(c.real('t', -5, 5)))
            t = a[0] + fr_ * (b[0] - a[0])
            o = v.call(t)
            c.no_throw(o)
            c.ieq(o.io[0], 0, 'not rejected')
            # the same two points alone
            r = c.call('h_tany_at_' + G, x=[t] + a + b, k=[2], b=Z * 4, no=N + 2, nio=2, nbo=64)
            c.eqv(o.o[0:N], r.o[0:N], 'the same point as on the curve of the two neighbours')
            return
        q = v.index('q', 1)
        a, b = v.at(q), v.at(q + 1)
        t = c.real('t', -5, 5)
        c.assume(c.And(t > a[0], t < b[0]))
        dmap = {}
        segment_contract(c, G, 't', dmap, ends=(a, b))
        o = v.call(t)
        c.no_throw(o)
        c.ieq(o.io[0], 0, 'not rejected')
        consistent(c, G, list(o.o[0:N]), 't', dmap, 'point')

    @P.contract('%s curve of any length: appending a point is rejected iff its time is not later than the last one or its frames differ, and then changes '
                'nothing; otherwise the curve has that point at its end, the segment to it, and everything else as before' % nm, name=G + '_any_append', **OPT)
    def append(c):
        i, f = fr(c, 'i', 'f')
        framed(c, i, f)
        v = Curve(c, G, fr=i + f)
        i2, f2 = fr(c, 'i2', 'f2')
        framed(c, i2, f2)
        p = [c.real('t', -6, 12)] + jet(c, G, 'p')
        q, s = v.index('q'), v.index('s', 1)
        o = c.call('h_tany_append_' + G, x=p + v.x(), k=[0 if c.symbolic else v.n, q, s], b=i2 + f2 + v.b * (1 if c.symbolic else v.n),
                   no=6 * (N + 1) + 2, nio=3, nbo=64)
        c.no_throw(o)
        last = v.at(v.n - 1)
        ok = c.And(p[0] > last[0], c.beq(i2, i), c.beq(f2, f))

        def seg(off, a, b, label):
            dt = b[0] - a[0]
            c.eqv(o.o[off:off + 2], [a[0], b[0]], label + ' times')
            for k, e in ((0, a[1:]), (1, b[1:])):
                z = off + 2 + k * N
                c.eqv(o.o[z:z + N], e[:m] + scale(dt, e[m:m + d]) + scale(dt * dt, e[m + d:]), label + ' end')
        n1 = N + 1
        if c.branch(ok):
            c.ieq(o.io[0], 0, 'valid point accepted')
            c.ieq(o.io[1], v.n + 1, 'control points')
            c.ieq(o.io[2], v.n, 'segments')
            c.eqv(o.o[3 * n1:4 * n1], p, 'last control point')
            frames_eq(c, o, 32, i, f, 'last control point')
            seg(4 * n1, last, p, 'last segment')
        else:
            c.ieq(o.io[0], 1, 'invalid point rejected')
            c.ieq(o.io[1], v.n, 'control points')
            c.ieq(o.io[2], v.n - 1, 'segments')
            c.eqv(o.o[3 * n1:4 * n1], last, 'last control point')
            seg(4 * n1, v.at(v.n - 2), last, 'last segment')
        c.eqv(o.o[0:n1], v.at(q), 'other control points')
        frames_eq(c, o, 0, i, f, 'other control points')
        seg(n1, v.at(s), v.at(s + 1), 'other segments')


mk('so3')
mk('se3')
mk_any('so3')
mk_any('se3')

from . import hist  # noqa: E402
hist.tcurves(P, 'so3', jet)
hist.tcurves(P, 'se3', jet)
