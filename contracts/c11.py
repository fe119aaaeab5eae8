"""Arc-length parametrised curves (SE3)."""
import re
from .registry import Property
from .lib import *
from .symlib import *
from .c06 import fr, framed, frames_eq
from .c09 import install, mk_group, LOG, EXP, call_body
from .c10 import frames, bbuf
from .symseq import Seq, SymArr, give, search_overrides

P = Property('C11', ['h_curves.cc', 'h_hist.cc'], bound='at most 3 poses')
Z = [0] * 16


def pose(c, n):
    return flat(c.rot(n)) + c.vec(n + 't')


def rel(a, b):
    """a^-1 b"""
    Rt = tr(m3(a))
    return flat(mm(Rt, m3(b))) + mv(Rt, sub(b[9:12], a[9:12]))


def prod(a, b):
    return flat(mm(m3(a), m3(b))) + add(mv(m3(a), b[9:12]), a[9:12])


class Motion:
    """log/exp by contract: log X is a function of X; exp(f log X) is a function of X and f with exp(0) = 1 and exp(log X) = X"""

    def __init__(self, c):
        self.c = c
        self.logs = []
        self.vals = []
        if not c.symbolic:
            return

        def log(E, args, name):
            wr_vec(E, args[0], self.log(ghost_read(E, 'irv_rd_se3', args[1], 12)))

        def exp(E, args, name):
            v = rd_vec(E, args[1], 6)
            y = self.exp(v)
            if y is None:
                return call_body(E, name, args)
            mk_group(E, 'se3', args[0], y, args[2:])
        install(c, [(LOG('se3'), log), (EXP('se3'), exp)])

    def same(self, a, b):
        return all(self.c.alg.is_zero(RL.R_(x) - y) for x, y in zip(a, b))

    def log(self, X):
        for Y, w in self.logs:
            if self.same(X, Y):
                return w
        self.c.note_contract('SE3::log X is a function of X, exp(log X) = X, exp(0) = 1 (C04)')
        i = len(self.logs)
        w = [self.c.real('log%d_%d' % (i, j)) for j in range(6)]
        self.logs.append((X, w))
        return w

    def at(self, i, f):
        """exp(f log X_i)"""
        X, w = self.logs[i]
        c = self.c
        if c.alg.is_zero(f) or c.branch(c.req(f, 0)):
            return flat(eye(3)) + [0, 0, 0]
        if c.alg.is_zero(f - 1) or c.branch(c.req(f, 1)):
            return X
        for j, g, y in self.vals:
            if i == j and self.c.alg.is_zero(f - g):
                return y
        y = fresh_pose(self.c.E, 'se3', 'Y%d' % len(self.vals))
        self.vals.append((i, f, y))
        return y

    def exp(self, v):
        for i, (X, w) in enumerate(self.logs):
            # v = f w ?
            f = self.ratio(v[0], w[0])
            if f is not None and all(self.c.alg.is_zero(a - f * b) for a, b in zip(v, w)):
                return self.at(i, f)
        return None

    def ratio(self, v, w):
        al = self.c.alg
        p = al.nf(v)
        sh = 8 * al.vatom(w).i
        r = RL.const(0)
        for m, k in p.items():
            if not (m >> sh) & 255:
                return None
            r = r + RL.const(k) * mono(al, m - (1 << sh))
        return r


def mono(al, m):
    r = RL.const(1)
    i = 0
    while m:
        e = m & 255
        if e:
            a = al.atoms[i]
            r = r * atom_node(al, a) ** e
        m >>= 8
        i += 1
    return r


def atom_node(al, a):
    if a.node is not None:
        return a.node
    if a.kind == 'var':
        return RL.var(a.name)
    if a.kind == 'inv':
        d = RL.const(0)
        for m, k in a.poly.items():
            d = d + RL.const(k) * mono(al, m)
        return 1 / d
    raise RL.SpecialFloat('atom ' + a.kind)


def poses(c, n):
    return [pose(c, 'p%d' % i) for i in range(n)]


def arc(c, M, a, b):
    """length of the segment from pose a to pose b"""
    if c.symbolic:
        w = M.log(rel(a, b))
        return c.sqrt(dot(w[3:], w[3:]))
    o = c.call('h_dcurve', x=a + b, k=[2], b=Z * 4, no=171, nio=10, nbo=128)
    return o.o[13]


def cum(c, M, p):
    s = [0]
    for a, b in zip(p, p[1:]):
        s.append(s[-1] + arc(c, M, a, b))
    return s


def check_state(c, o, M, p, kept, label, fs=None):
    q = [p[i] for i in kept]
    c.ieq(o.io[8], len(q), label + ': control points')
    c.ieq(o.io[9], max(0, len(q) - 1), label + ': segments')
    s = cum(c, M, q)
    for i, x in enumerate(q):
        c.eq(o.o[13 * i], s[i], label + ': arc length is the sum of the segment lengths')
        c.eqv(o.o[13 * i + 1:13 * i + 13], x, label + ': pose')
        if fs:
            frames_eq(c, o, 32 * i, fs[kept[i]][0], fs[kept[i]][1], label + ': control point')
    for i in range(1, len(q)):
        g = o.o[52 + 38 * (i - 1):52 + 38 * i]
        c.eqv(g[0:2], s[i - 1:i + 1], label + ': segment arc lengths')
        c.eqv(g[2:14], q[i - 1], label + ': segment origin')
        c.eqv(g[14:26], q[i], label + ': segment destination')
        c.eqv(g[26:38], rel(q[i - 1], q[i]), label + ': segment orig_from_dest')
    return s


for _n in (1, 2, 3):
    @P.contract('%d poses appended one at a time: on a framed curve a pose is rejected iff its frames differ, a rejected pose '
                'changes nothing; arc lengths accumulate; segments join consecutive poses' % _n, name='append[%d]' % _n)
    def append(c, n=_n):
        M = Motion(c)
        p = poses(c, n)
        b, fs = frames(c, n)
        o = c.call('h_dcurve', x=sum(p, []), k=[n], b=b, no=171, nio=10, nbo=128)
        c.no_throw(o)
        c.ieq(o.io[0], 0, 'the first pose is accepted')
        # an unframed first pose fixes no frames; mixed curves are outside this contract
        fa = c.Not(c.isnull(fs[0][0]))
        if not c.branch(fa):
            for i in range(1, n):
                c.assume(c.isnull(fs[i][0]))
        kept = [0]
        for i in range(1, n):
            ok = c.And(c.beq(fs[i][0], fs[0][0]), c.beq(fs[i][1], fs[0][1]))
            if c.branch(ok):
                c.ieq(o.io[i], 0, 'valid pose accepted')
                kept.append(i)
            else:
                c.ieq(o.io[i], 1, 'invalid pose rejected')
        s = check_state(c, o, M, p, kept, 'state', fs)
        c.eq(o.o[170], s[-1], 'curve length')

for _h in range(3):
    @P.contract('bulk construction (%d) equals appending in order' % _h, name='bulk[%d]' % _h)
    def bulk(c, how=_h):
        M = Motion(c)
        p = poses(c, 3)
        o = c.call('h_dbulk', x=sum(p, []), k=[3, how], b=Z * 6, no=171, nio=10, nbo=128)
        c.no_throw(o)
        check_state(c, o, M, p, [0, 1, 2], 'bulk')

for _n in (0, 1, 2):
    @P.contract('frames and length of a curve with %d poses; frame queries throw iff it is empty; an empty curve has length 0'
                % _n, name='info[%d]' % _n)
    def info(c, n=_n):
        M = Motion(c)
        i, f = fr(c, 'i', 'f')
        fa = framed(c, i, f)
        p = poses(c, n)
        o = c.call('h_dinfo', x=sum(p, []), k=[n], b=(i + f) * n, no=1, nio=10, nbo=32)
        c.no_throw(o)
        if n < 2:
            c.eq(o.o[0], 0, 'length')
        if n == 0:
            c.ieq(o.io[8], 7, 'every frame query of an empty curve throws')
            return
        c.ieq(o.io[8], 0, 'no query throws')
        c.holds(c.And(c.beq(o.bo[0:16], f), c.beq(o.bo[16:32], i)), 'point frame and reference frame')
        c.holds(c.Iff(o.io[9] == 1, fa), 'is_framed')

for _n in (0, 1, 2, 3):
    @P.contract('curve with %d poses: a query throws iff there are fewer than two poses or it lies outside [0, length]; '
                'inside, the point moves from the segment origin along the constant-twist motion by the fraction of the '
                'segment length travelled; frames are those of the curve' % _n, name='query[%d]' % _n)
    def query(c, n=_n):
        M = Motion(c)
        i, f = fr(c, 'i', 'f')
        framed(c, i, f)
        p = poses(c, n)
        S = cum(c, M, p) if n else [0]
        s = c.real('s', -2, 30)
        if not c.symbolic and n > 1:
            s = edge(c, S[-1] * (s + 1) / 14, 0.0, S[-1], 1e-6)
        o = c.call('h_dat', x=sum(p, []) + [s], k=[n, 0], b=(i + f) * n, no=12 + n, nio=1, nbo=32)
        c.no_throw(o)
        if n < 2:
            c.ieq(o.io[0], 1, 'fewer than two poses')
            return
        if c.branch(c.Or(s < 0, s > S[-1])):
            c.ieq(o.io[0], 1, 'outside [0, length]')
            return
        c.ieq(o.io[0], 0, 'inside [0, length]')
        frames_eq(c, o, 0, i, f, 'point')
        for j in range(n - 1):
            if j == n - 2 or c.branch(s <= S[j + 1]):
                break
        l = S[j + 1] - S[j]
        if c.branch(l > 0):
            fr_ = (s - S[j]) / l
        else:
            fr_ = 0
        if c.symbolic:
            X = rel(p[j], p[j + 1])
            M.log(X)
            k = [k for k, (Y, w) in enumerate(M.logs) if M.same(X, Y)][0]
            c.eqv(o.o[0:12], prod(p[j], M.at(k, RL.R_(fr_))), 'point')
        else:
            # oracle: rotation by fraction of the angle about the fixed axis, and the rest by symmetry of the twist
            q = c.call('h_se3_interp', x=rel(p[j], p[j + 1]) + [fr_], no=12)
            c.eqv(o.o[0:12], prod(p[j], list(q.o[0:12])), 'point', tol=1e-6)

for _n in (2, 3):
    @P.contract('curve with %d poses: at the arc length of a control pose the curve is at the first control pose with that arc '
                'length; at length it is at the last one when the last segment has positive length' % _n,
                name='interpolates[%d]' % _n)
    def interpolates(c, n=_n):
        M = Motion(c)
        p = poses(c, n)
        if not c.symbolic and c.idx % 3 == 0:
            p[1] = p[0][:]          # a zero-length first segment
        S = cum(c, M, p)
        for i in range(n):
            o = c.call('h_dat', x=sum(p, []) + [0], k=[n, 1, i], b=Z * 2 * n, no=12 + n, nio=1, nbo=32)
            c.no_throw(o)
            c.ieq(o.io[0], 0, 'not rejected')
            j = 0
            while j < i and not c.branch(c.req(S[j], S[i]) if c.symbolic else S[j] >= S[i] - 1e-9):
                j += 1
            c.eqv(o.o[0:12], p[j], 'control pose %d' % i, tol=1e-5)


# ---------------------------------------------------------------- curves of any length

class Curve:
    """a curve with an arbitrary number n >= 2 of poses (natively: up to 30); elements (arc length, pose)"""

    def __init__(self, c, fr=None):
        self.c, self.b = c, fr or Z * 2
        self.M = Motion(c)
        if c.symbolic:
            E = c.E
            c.separable = True
            self.n = c.int('n', 2, 1 << 40)
            self.seq = Seq(c, self.n, lambda k, i: [c.real('S%d' % k)] + pose(c, 'P%d' % k), lambda v, w: c.assume(v[0] <= w[0]))
            c.assume(c.req(self.seq.at(0)[0], 0))
            install(c, search_overrides())
            E.call('irv_dc_new', [])
            cap = c.int('room', 1, 1 << 40)
            self.joined = {}
            for w, n, build in ((0, self.n, self.ctl), (1, self.n - 1, self.seg)):
                arr = SymArr(E, n, n + cap, E.call('irv_dc_size', [w]), build, ('control_pts', 'segments')[w])
                give(E, E.call('irv_dc_vec', [w]), arr)
        else:
            self.n = c.int('n', 2, 30, (2, 3, 4, 5, 8, 9, 16, 17))
            p = poses(c, self.n)
            for i in range(1, self.n):
                if c.rng.random() < .15:
                    p[i] = p[i - 1][:]
            self.pts = [[s] + q for s, q in zip(cum(c, self.M, p), p)]

    def at(self, i):
        return self.seq.at(i) if self.c.symbolic else self.pts[i]

    def join(self, i):
        """elements i and i + 1 and the invariant between them"""
        v, w = self.at(i), self.at(i + 1)
        if self.c.symbolic and (id(v), id(w)) not in self.joined:
            self.joined[id(v), id(w)] = (v, w)
            self.c.assume(self.c.req(w[0], v[0] + arc(self.c, self.M, v[1:], w[1:])))
        return v, w

    def ctl(self, E, p, i):
        v = self.seq.at(i)
        E.call('irv_mk_dctl', [p, v[0], buf(E, v[1:]), bbuf(E, self.b)])

    def seg(self, E, p, i):
        v, w = self.join(i)
        E.call('irv_mk_dseg', [p, v[0], buf(E, v[1:]), w[0], buf(E, w[1:]), bbuf(E, self.b)])

    def index(self, name, m=0):
        if self.c.symbolic:
            q = self.c.int(name, 0, 1 << 40)
            self.c.assume(q < self.n - m)
            return q
        return self.c.int(name, 0, 1 << 40) % (self.n - m)

    def x(self):
        return [] if self.c.symbolic else [v for p in self.pts for v in p[1:]]

    def nn(self):
        return 0 if self.c.symbolic else self.n

    def bb(self):
        return self.b * (1 if self.c.symbolic else self.n)

    def call(self, s, q=None):
        return self.c.call('h_dany_at', x=[s] + self.x(), k=[self.nn(), 0 if q is None else 1, 0 if q is None else q], b=self.bb(), no=13, nio=2, nbo=64)


OPT = dict(soft=True, bound=None, budget=60.0, samples=25)


@P.contract('curve of any length: a query is rejected iff it lies outside [0, length]; curve length, frames', name='any_range', **OPT)
def any_range(c):
    i, f = fr(c, 'i', 'f')
    fa = framed(c, i, f)
    v = Curve(c, i + f)
    L = v.at(v.n - 1)[0]
    s = c.real('s', -2, 30)
    if not c.symbolic:
        s = edge(c, L * (s + 1) / 14, 0.0, L, 1e-6)
    o = v.call(s)
    c.no_throw(o)
    c.eq(o.o[12], L, 'curve length')
    c.holds(c.Iff(o.io[1] == 1, fa), 'is_framed')
    frames_eq(c, o, 32, i, f, 'frames of the curve')
    if c.branch(c.Or(s < 0, s > L)):
        c.ieq(o.io[0], 1, 'outside [0, length]')
        return
    c.ieq(o.io[0], 0, 'inside [0, length]')
    frames_eq(c, o, 0, i, f, 'point')


@P.contract('curve of any length: between two poses the point moves from the first along the constant-twist motion by the fraction of the distance travelled',
            name='any_query', **OPT)
def any_query(c):
    v = Curve(c)
    q = v.index('q', 1)
    a, b = v.join(q)
    if c.symbolic:
        s = c.real('s')
        first = c.branch(q <= 0)
        c.assume(c.And(s >= 0 if first else s > a[0], s <= b[0]))
    else:
        s = a[0] + (b[0] - a[0]) * c.rng.choice((1e-3, .2, .5, .9, .999))
        c.assume(b[0] - a[0] > 1e-6)
    o = v.call(s)
    c.no_throw(o)
    c.ieq(o.io[0], 0, 'not rejected')
    l = b[0] - a[0]
    t = (s - a[0]) / l if c.branch(l > 0) else 0
    if c.symbolic:
        X = rel(a[1:], b[1:])
        v.M.log(X)
        k = [k for k, (Y, w) in enumerate(v.M.logs) if v.M.same(X, Y)][0]
        c.eqv(o.o[0:12], prod(a[1:], v.M.at(k, RL.R_(t))), 'point')
    else:
        r = c.call('h_se3_interp', x=rel(a[1:], b[1:]) + [t], no=12)
        c.eqv(o.o[0:12], prod(a[1:], list(r.o[0:12])), 'point', tol=1e-6)


@P.contract('curve of any length: at the arc length of any control pose reached by a segment of positive length, and at 0, the curve is at that pose',
            name='any_interpolates', **OPT)
def any_interpolates(c):
    v = Curve(c)
    q = v.index('q', 1)
    zero = c.int('zero', 0, 1)
    if c.branch(zero >= 1):
        p, q = v.at(0), -1
    else:
        a, p = v.join(q)
        c.assume(p[0] > a[0] if c.symbolic else p[0] > a[0] + 1e-6)
    o = v.call(0, q + 1)
    c.no_throw(o)
    c.ieq(o.io[0], 0, 'not rejected')
    c.eqv(o.o[0:12], p[1:], 'control pose', tol=1e-5)


@P.contract('curve of any length: appending a pose to a framed curve is rejected iff its frames differ, and then changes nothing; otherwise the pose is at the '
            'end, the arc length grows by that of the new segment, and everything else is as before', name='any_append', **OPT)
def any_append(c):
    i, f = fr(c, 'i', 'f')
    fa = framed(c, i, f)
    v = Curve(c, i + f)
    i2, f2 = fr(c, 'i2', 'f2')
    framed(c, i2, f2)
    if not c.branch(fa):
        c.assume(c.isnull(i2))
    p = pose(c, 'p')
    q, s = v.index('q'), v.index('s', 1)
    o = c.call('h_dany_append', x=p + v.x(), k=[v.nn(), q, s], b=i2 + f2 + v.bb(), no=103, nio=3, nbo=64)
    c.no_throw(o)

    def seg(off, a, b, label):
        c.eqv(o.o[off:off + 2], [a[0], b[0]], label + ' arc lengths')
        c.eqv(o.o[off + 2:off + 14], a[1:], label + ' origin')
        c.eqv(o.o[off + 14:off + 26], b[1:], label + ' destination')
        c.eqv(o.o[off + 26:off + 38], rel(a[1:], b[1:]), label + ' orig_from_dest')
    last = v.at(v.n - 1)
    if c.branch(c.And(c.beq(i2, i), c.beq(f2, f))):
        c.ieq(o.io[0], 0, 'valid pose accepted')
        c.ieq(o.io[1], v.n + 1, 'control poses')
        c.ieq(o.io[2], v.n, 'segments')
        L = last[0] + arc(c, v.M, last[1:], p)
        c.eqv(o.o[51:64], [L] + p, 'last control pose')
        c.eq(o.o[102], L, 'curve length')
        frames_eq(c, o, 32, i, f, 'last control pose')
        seg(64, last, [L] + p, 'last segment')
    else:
        c.ieq(o.io[0], 1, 'invalid pose rejected')
        c.ieq(o.io[1], v.n, 'control poses')
        c.ieq(o.io[2], v.n - 1, 'segments')
        c.eqv(o.o[51:64], last, 'last control pose')
        c.eq(o.o[102], last[0], 'curve length')
        seg(64, v.at(v.n - 2), last, 'last segment')
    c.eqv(o.o[0:13], v.at(q), 'other control poses')
    frames_eq(c, o, 0, i, f, 'other control poses')
    seg(13, *v.join(s), 'other segments')

from . import hist  # noqa: E402
hist.dcurves(P, Motion)
