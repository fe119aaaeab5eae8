"""Trajectories: timestamped rigid-body states joined by a time curve."""
import re
from fractions import Fraction
from .registry import Property
from .lib import *
from .symlib import *
from .c06 import fr, framed, frames_eq
from .c09 import install
from .c10 import segment_contract, bbuf
from .symseq import Seq, SymArr, give, search_overrides
from .c12 import state

P = Property('C13', ['h_state.cc', 'h_hist.cc'], bound='at most 3 control states')
Z = [0] * 16
NS = 10 ** 9
LIM = 1 << 50      # double precision resolves nanoseconds


def secs(c, k):
    return c.toreal(k) / NS if c.symbolic else k / NS


def stamps(c, n):
    return [c.int('t%d' % i, -LIM, LIM, special=(0, 1, -1, NS, 2 * NS, 3 * NS, NS // 3)) for i in range(n)]


def incr(c, ts):
    """increasing times; native samples are made so"""
    if not c.symbolic:
        s = sorted(ts)
        for i in range(len(ts)):
            ts[i] = s[i] + i
        return
    for a, b in zip(ts, ts[1:]):
        c.assume(b > a)


def frames(c, n):
    b, out = [], []
    for i in range(n):
        a, f = fr(c, 'i%d' % i, 'f%d' % i)
        framed(c, a, f)
        b += a + f
        out.append((a, f))
    return b, out


def left(x):
    """left two-jet of the inverse motion: pose^-1 and minus the body derivatives"""
    R, t = m3(x), x[9:12]
    Rt = tr(R)
    return flat(Rt) + scale(-1, mv(Rt, t)) + scale(-1, x[12:24])


def states(c, n):
    return [state(c, 'p%d' % i) for i in range(n)]


def K(n, how, q, ts):
    return [n, how, q] + [0] * 5 + ts


def check(c, o, xs, ts, kept, label, fs=None):
    c.ieq(o.io[8], len(kept), label + ': control states')
    c.ieq(o.io[9], ts[kept[0]] if kept else 0, label + ': start time')
    for p, i in enumerate(kept):
        c.eq(o.o[25 * p], secs(c, ts[i] - ts[kept[0]]), label + ': seconds since start', tol=1e-9)
        c.eqv(o.o[25 * p + 1:25 * p + 25], left(xs[i]), label + ': control state')
        if fs:
            frames_eq(c, o, 32 * p, fs[i][1], fs[i][0], label + ': control state')


for _n in (1, 2, 3):
    @P.contract('%d states appended one at a time: a state is rejected iff its timestamp is not later than the last one or its '
                'reference or body frame differs; a rejected state changes nothing; accepted states are kept exactly' % _n,
                name='append[%d]' % _n)
    def append(c, n=_n):
        ts, xs = stamps(c, n), states(c, n)
        b, fs = frames(c, n)
        if not c.symbolic:
            # mostly increasing, often tied
            for i in range(1, n):
                if c.rng.random() < .7:
                    ts[i] = ts[i - 1] + c.rng.choice((0, 1, 1, 2, NS, NS))
        o = c.call('h_traj_append', x=sum(xs, []), k=K(n, 0, 0, ts), b=b, no=25 * 4, nio=12, nbo=128)
        c.no_throw(o)
        kept = [0]
        c.ieq(o.io[0], 0, 'the first state is accepted')
        for i in range(1, n):
            l = kept[-1]
            ok = c.And(ts[i] > ts[l], c.beq(fs[i][0], fs[l][0]), c.beq(fs[i][1], fs[l][1]))
            if c.branch(ok):
                c.ieq(o.io[i], 0, 'valid state accepted')
                kept.append(i)
            else:
                c.ieq(o.io[i], 1, 'invalid state rejected')
        check(c, o, xs, ts, kept, 'trajectory', fs)

for _h, _t in ((0, 'initializer list constructor'), (1, 'append of a list'), (2, 'from a curve and a start time')):
    @P.contract('bulk construction (%s) equals appending in order; throws iff some append would' % _t, name='bulk[%d]' % _h)
    def bulk(c, how=_h):
        n = 3
        ts, xs = stamps(c, n), states(c, n)
        b, fs = frames(c, n)
        if not c.symbolic:
            if c.rng.random() < .8:
                incr(c, ts)
            if c.rng.random() < .8:
                b, fs = b[:32] * n, fs[:1] * n
        q = c.int('q', -LIM, LIM)
        o = c.call('h_traj_bulk', x=sum(xs, []), k=K(n, how, q, ts), b=b, no=25 * 4, nio=12, nbo=128)
        bad = c.Not(c.And(*[c.And(ts[i + 1] > ts[i], c.beq(fs[i + 1][0], fs[i][0]), c.beq(fs[i + 1][1], fs[i][1]))
                            for i in range(n - 1)]))
        if c.throws_iff(o, bad, 'times and frames'):
            return
        if how == 2:
            c.ieq(o.io[9], q, 'start time as given')
            c.ieq(o.io[8], n, 'all control points')
            for i in range(n):
                c.eqv(o.o[25 * i + 1:25 * i + 25], left(xs[i]), 'control state')
            return
        check(c, o, xs, ts, [0, 1, 2], 'trajectory', fs)

for _n in (0, 1, 2, 3):
    @P.contract('a trajectory of %d states starts at the first and ends at the last timestamp, its duration is their difference, '
                'and it reports the common frames (end, duration and frames are rejected when empty)' % _n, name='info[%d]' % _n)
    def info(c, n=_n):
        ts, xs = stamps(c, n), states(c, n)
        incr(c, ts)
        i, f = fr(c, 'i', 'f')
        framed(c, i, f)
        o = c.call('h_traj_info', x=sum(xs, []), k=K(n, 0, 0, ts), b=(i + f) * n, nio=12, nbo=32)
        c.no_throw(o)
        if n == 0:
            c.ieq(o.io[8], 15, 'frames, end and duration of an empty trajectory are rejected')
            return
        c.ieq(o.io[8], 0, 'frames are available')
        c.ieq(o.io[9], ts[0], 'start time')
        c.ieq(o.io[10], ts[-1], 'end time')
        c.ieq(o.io[11], ts[-1] - ts[0], 'duration')
        frames_eq(c, o, 0, i, f, 'reference and body frame')

for _n in (0, 1, 2, 3):
    for _h in (0, 1):
        _q = 'timestamp' if _h == 0 else 'elapsed time'

        @P.contract('query by %s, %d states: rejected iff fewer than two states or outside [start, end]; the result carries the '
                    'frames of the trajectory' % (_q, _n), name='range[%d,%s]' % (_n, _q.split()[0]))
        def rng(c, n=_n, how=_h):
            ts, xs = stamps(c, n), states(c, n)
            incr(c, ts)
            i, f = fr(c, 'i', 'f')
            framed(c, i, f)
            q = c.int('q', -LIM, LIM, special=(0, 1, NS))
            if not c.symbolic and n and c.rng.random() < .7:
                q = c.rng.randint(ts[0] - 1, ts[-1] + 1) if c.rng.random() < .7 else c.rng.choice(ts)
                q = q - ts[0] * how
            if c.symbolic:
                segment_contract(c, 'se3')
            o = c.call('h_traj_at', x=sum(xs, []), k=K(n, how, q, ts), b=(i + f) * n, no=60, nio=1, nbo=32)
            c.no_throw(o)
            if n < 2:
                c.ieq(o.io[0], 1, 'fewer than two states')
                return
            a = q + (ts[0] if how else 0)
            if c.branch(c.Or(a < ts[0], a > ts[-1])):
                c.ieq(o.io[0], 1, 'outside the time range')
            else:
                c.ieq(o.io[0], 0, 'inside the time range')
                frames_eq(c, o, 0, i, f, 'result')

for _n in (2, 3):
    for _h in (0, 1):
        _q = 'timestamp' if _h == 0 else 'elapsed time'

        @P.contract('query by %s at each control timestamp returns that control state (pose, velocity, acceleration), %d states' % (_q, _n),
                    name='interpolates[%d,%s]' % (_n, _q.split()[0]))
        def interp(c, n=_n, how=_h):
            ts, xs = stamps(c, n), states(c, n)
            if not c.symbolic:
                for i in range(n):
                    ts[i] = ts[0] + i * NS + (ts[i] % NS) // 2
            incr(c, ts)
            if c.symbolic:
                segment_contract(c, 'se3')
            for i in range(n):
                o = c.call('h_traj_at', x=sum(xs, []), k=K(n, how, ts[i] - (ts[0] if how else 0), ts), b=Z * 2 * n, no=60, nio=1, nbo=32)
                c.no_throw(o)
                c.ieq(o.io[0], 0, 'not rejected')
                c.eqv(o.o[0:24], xs[i], 'control state %d' % i, tol=1e-5)
                c.eqv(o.o[24:36], o.o[12:24], 'bundled derivatives')

    for _h in (0, 1):
        @P.contract('query by %s: the state is the right two-jet of the time curve at exactly the seconds since the start, so its '
                    'body velocity and acceleration are the time derivatives of the pose (C10), %d states' % (('timestamp', 'elapsed time')[_h], _n),
                    name='derivatives[%d,%d]' % (_n, _h))
        def derivs(c, n=_n, how=_h):
            ts, xs = stamps(c, n), states(c, n)
            if c.symbolic:
                incr(c, ts)
                q = c.int('q', -LIM, LIM)
                J = flat(c.rotq(c.quat('J', wpos=False))) + c.vec('Jt') + c.vec('Jv', 6) + c.vec('Ja', 6)
                want = secs(c, q - (0 if how else ts[0]))
                other = [0]

                def at(E, args, name):
                    E.ctx.note_contract('TCurve::point_at (C10)')
                    v = J
                    if not E.ctx.alg.is_zero(E.real(args[2]) - want):
                        other[0] += 1
                        v = fresh_pose(E, 'se3', 'O%d' % other[0]) + [E.ctx.real('O%d.%d' % (other[0], i)) for i in range(12)]
                    E.call('irv_mk_jl1_se3', [args[0], E.call('irv_tc_first', [args[1]]), buf(E, v)])
                install(c, [(re.compile(r'resim::curves::TCurve<resim::transforms::SE3>::point_at\(double\) const'), at)])
                o = c.call('h_traj_at', x=sum(xs, []), k=K(n, how, q, ts), b=Z * 2 * n, no=60, nio=1, nbo=32)
                c.no_throw(o)
                c.ieq(o.io[0], 0, 'not rejected')
                c.eqv(left(o.o[0:24]), J, 'state is the right two-jet of the curve point')
                return
            t0 = ts[0]
            ts = [t0 + int(1.25 * NS) * i for i in range(n)]
            for x in xs:
                for j in range(12, 24):
                    x[j] /= 10
            h = 10 ** 5
            f = c.rng.uniform(0.01, 0.99) * 1.25 + 1.25 * c.rng.randrange(n - 1)
            q = int(f * NS) + (0 if how else t0)
            r = [c.call('h_traj_at', x=sum(xs, []), k=K(n, how, q + e * h, ts), b=Z * 2 * n, no=60, nio=1, nbo=32) for e in (-1, 0, 1)]
            for o in r:
                c.no_throw(o)
                c.ieq(o.io[0], 0, 'not rejected')
            p, m, z = r
            R = m3(m.o)
            hs = 2.0 * h / NS
            c.nearm(mscale(1 / hs, msub(m3(z.o), m3(p.o))), mm(R, hat(m.o[12:15])), 'rotation derivative', ntol=1e-4)
            c.nearv(scale(1 / hs, sub(z.o[9:12], p.o[9:12])), mv(R, m.o[15:18]), 'translation derivative', ntol=1e-4)
            c.nearv(scale(1 / hs, sub(z.o[12:18], p.o[12:18])), m.o[18:24], 'acceleration', ntol=1e-4)


# ---------------------------------------------------------------- trajectories of any length

class Traj:
    """a trajectory of an arbitrary number n >= 2 of states (natively: up to 30); elements (timestamp, state)"""

    def __init__(self, c, fr=None):
        self.c, self.b = c, fr or Z * 2
        if c.symbolic:
            E = c.E
            c.separable = True
            self.n = c.int('n', 2, 1 << 40)
            self.seq = Seq(c, self.n, lambda k, i: (c.int('T%d' % k, -LIM, LIM), state(c, 'X%d' % k)), lambda v, w: c.assume(v[0] < w[0]))
            self.t0 = self.seq.at(0)[0]
            install(c, search_overrides())
            curve = E.call('irv_tr_new', [self.t0])
            cap = c.int('room', 1, 1 << 40)
            for w, n, build in ((0, self.n, self.ctl), (1, self.n - 1, self.seg)):
                arr = SymArr(E, n, n + cap, E.call('irv_tc_size_se3', [w]), build, ('control_pts', 'segments')[w])
                give(E, E.call('irv_tc_vec_se3', [curve, w]), arr)
        else:
            self.n = c.int('n', 2, 30, (2, 3, 4, 5, 8, 9, 16, 17))
            ts = stamps(c, 1)[0]
            self.pts = []
            for i, x in enumerate(states(c, self.n)):
                self.pts.append((ts, x))
                ts += c.rng.choice((NS, NS // 2, NS // 4 + i))
            self.t0 = self.pts[0][0]

    def at(self, i):
        return self.seq.at(i) if self.c.symbolic else self.pts[i]

    def jet(self, v):
        return left(v[1])

    def ctl(self, E, p, i):
        v = self.seq.at(i)
        E.call('irv_mk_ctl_se3', [p, self.secs(v), buf(E, self.jet(v)), bbuf(E, self.b[16:] + self.b[:16])])

    def seg(self, E, p, i):
        v, w = self.seq.at(i), self.seq.at(i + 1)
        E.call('irv_mk_seg_se3', [p, self.secs(v), buf(E, self.jet(v)), self.secs(w), buf(E, self.jet(w)), bbuf(E, self.b[16:] + self.b[:16])])

    def secs(self, v):
        return secs(self.c, v[0] - self.t0)

    def index(self, name):
        if self.c.symbolic:
            q = self.c.int(name, 0, 1 << 40)
            self.c.assume(q < self.n)
            return q
        return self.c.int(name, 0, 1 << 40) % self.n

    def x(self):
        return [] if self.c.symbolic else [v for p in self.pts for v in p[1]]

    def bb(self):
        return self.b * (1 if self.c.symbolic else self.n)

    def k(self, *a):
        return [0 if self.c.symbolic else self.n] + list(a) + [0] * (7 - len(a)) + ([] if self.c.symbolic else [p[0] for p in self.pts])

    def call(self, how, q):
        return self.c.call('h_trany_at', x=self.x(), k=self.k(how, q), b=self.bb(), no=60, nio=4, nbo=64)


OPT = dict(soft=True, bound=None, budget=90.0, samples=30)

for _h in (0, 1):
    _q = ('timestamp', 'elapsed time')[_h]

    @P.contract('trajectory of any length: start and end time, duration and frames; a query by %s is rejected iff it lies outside [start, end]; the result '
                'carries the frames of the trajectory' % _q, name='any_range[%d]' % _h, **OPT)
    def any_range(c, how=_h):
        i, f = fr(c, 'i', 'f')
        framed(c, i, f)
        v = Traj(c, i + f)
        if c.symbolic:
            segment_contract(c, 'se3')
        q = c.int('q', -LIM, LIM, special=(0, 1, NS))
        a, b = v.t0, v.at(v.n - 1)[0]
        if not c.symbolic:
            q = c.rng.choice((a, b, a - 1, b + 1, c.rng.randint(a, b), c.rng.randint(a, b), v.at(v.index('j'))[0])) - a * how
        o = v.call(how, q)
        c.no_throw(o)
        c.ieq(o.io[1], a, 'start time')
        c.ieq(o.io[2], b, 'end time')
        c.ieq(o.io[3], b - a, 'duration')
        frames_eq(c, o, 32, i, f, 'frames')
        at = q + (a if how else 0)
        if c.branch(c.Or(at < a, at > b)):
            c.ieq(o.io[0], 1, 'outside the time range')
        else:
            c.ieq(o.io[0], 0, 'inside the time range')
            frames_eq(c, o, 0, i, f, 'result')

    @P.contract('trajectory of any length: the query by %s at any control timestamp returns that control state' % _q, name='any_interpolates[%d]' % _h, **OPT)
    def any_interp(c, how=_h):
        v = Traj(c)
        if c.symbolic:
            segment_contract(c, 'se3')
        t, x = v.at(v.index('q'))
        o = v.call(how, t - (v.t0 if how else 0))
        c.no_throw(o)
        c.ieq(o.io[0], 0, 'not rejected')
        c.eqv(o.o[0:24], x, 'control state', tol=1e-5)
        c.eqv(o.o[24:36], o.o[12:24], 'bundled derivatives')


@P.contract('trajectory of any length: appending a state is rejected iff its timestamp is not later than the last one or its frames differ, and then changes '
            'nothing; otherwise that state is at the end and everything else is as before', name='any_append', **OPT)
def any_append(c):
    i, f = fr(c, 'i', 'f')
    framed(c, i, f)
    v = Traj(c, i + f)
    i2, f2 = fr(c, 'i2', 'f2')
    framed(c, i2, f2)
    x = state(c, 'p')
    t = c.int('t', -LIM, LIM)
    last = v.at(v.n - 1)
    if not c.symbolic:
        t = last[0] + c.rng.choice((-1, 0, 1, NS))
    q = v.index('q')
    o = c.call('h_trany_append', x=x + v.x(), k=v.k(q, 0, t), b=i2 + f2 + v.bb(), no=50, nio=4, nbo=64)
    c.no_throw(o)
    c.ieq(o.io[2], v.t0, 'start time')
    if c.branch(c.And(t > last[0], c.beq(i2, i), c.beq(f2, f))):
        c.ieq(o.io[0], 0, 'valid state accepted')
        c.ieq(o.io[1], v.n + 1, 'control states')
        last = (t, x)
    else:
        c.ieq(o.io[0], 1, 'invalid state rejected')
        c.ieq(o.io[1], v.n, 'control states')
    c.ieq(o.io[3], last[0], 'end time')
    for k, e in ((0, v.at(q)), (1, last)):
        c.eq(o.o[25 * k], v.secs(e), 'seconds since start', tol=1e-9)
        c.eqv(o.o[25 * k + 1:25 * k + 25], v.jet(e), 'control state')
        frames_eq(c, o, 32 * k, f, i, 'control state')

from . import hist  # noqa: E402
hist.trajectories(P, state)
