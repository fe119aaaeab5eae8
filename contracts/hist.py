"""Histories: an object that was used and then changed behaves like a fresh one with the same content (no stale caches)."""
import re
from .lib import *
from .symlib import *
from .c06 import fr, framed, Z


def same(c, o, pairs, bpairs=(), ipairs=(), label='same as a fresh object', tol=1e-9):
    for a, b, n in pairs:
        c.eqv(o.o[a:a + n], o.o[b:b + n], label, tol=tol)
    for a, b, n in bpairs:
        c.holds(c.beq(o.bo[a:a + n], o.bo[b:b + n]), label + ' (frames)')
    for a, b in ipairs:
        c.ieq(o.io[a], o.io[b], label + ' (sizes, rejection)')


def pose(c, G, n):
    return flat(c.rot(n)) + (c.vec(n + 't') if G == 'se3' else [])


OPS = ['set_frames', 'set_unframed', 'copy-assigned', 'move-assigned', 'assigned to itself', 'only used', 'a copy from before set_frames',
       'a copy from after set_frames']


def group(P, G):
    n = 9 if G == 'so3' else 12
    for k, t in enumerate(OPS):
        @P.contract('%s used through every observer, then %s: every observer (value, frames, inverse, products, action, adjoint, log) is that of a fresh '
                    'transform with the same content' % (G.upper(), t), name='%s_history[%d]' % (G, k), overrides=[pure_log(G)])
        def h(c, k=k):
            ai, af, bi, bf, ci, cf = fr(c, 'ai', 'af', 'bi', 'bf', 'ci', 'cf')
            framed(c, ai, af), framed(c, bi, bf)
            c.assume(c.Not(c.isnull(ci)))
            c.assume(c.Not(c.isnull(cf)))
            o = c.call('h_hist_' + G, x=pose(c, G, 'a') + pose(c, G, 'b') + c.vec('v'), k=[k], b=ai + af + bi + bf + ci + cf, no=200, nbo=320)
            c.no_throw(o)
            ad = 9 if G == 'so3' else 36
            same(c, o, [(0, 100, 4 * n + 6), (4 * n + 6, 4 * n + 106, ad), (4 * n + 42, 4 * n + 142, 3 if G == 'so3' else 6)], [(0, 160, 129)])
            c.eqv(o.o[0:n], o.o[0:n], 'value')


JOPS = ['the value set', 'the first derivative set', 'the second derivative set', 'copy-assigned', 'move-assigned', 'only used',
        'a copy from before the changes', 'derivatives set, used, and the value set']


def jets(P, jet):
    for G in ('so3', 'se3'):
        N = 15 if G == 'so3' else 24
        for side in 'lr':
            for k, t in enumerate(JOPS):
                @P.contract('%s two-jet of %s used, then %s: value, inverse, products and conversion are those of a fresh jet with the same content'
                            % ('left' if side == 'l' else 'right', G.upper(), t), name='%s_%s_history[%d]' % (G, side, k))
                def h(c, k=k, G=G, side=side, N=N):
                    i, f = fr(c, 'i', 'f')
                    framed(c, i, f)
                    o = c.call('h_hist_j%s_%s' % (side, G), x=jet(c, G, 'a') + jet(c, G, 'b') + jet(c, G, 'u'), k=[k], b=i + f + f + i,
                               no=10 * N, nbo=320)
                    c.no_throw(o)
                    same(c, o, [(0, 5 * N, 5 * N)], [(0, 160, 160)])


def states(P, state):
    names = ['pose', 'angular velocity', 'linear velocity', 'angular acceleration', 'linear acceleration']
    for m, t in enumerate(('', ', copied in between', ', the copy from before')):
        for a in range(5):
            for b in range(5) if m == 0 else [(a + m) % 5]:
                @P.contract('state used, its %s set, used, its %s set%s: every observer, compositions and relative state are those of a fresh state'
                            % (names[a], names[b], t), name='history[%d,%d,%d]' % (a, b, m), samples=30)
                def h(c, m=m, a=a, b=b):
                    i, f = ([1] * 16, [2] * 16) if (a + b) % 2 else (Z, Z)
                    x = state(c, 'a') + state(c, 'b') + state(c, 't')
                    o = c.call('h_hist_state', x=x, k=[a, b, m], b=i + f + f + i, no=264, nbo=320)
                    c.no_throw(o)
                    same(c, o, [(0, 132, 132)], [(0, 160, 160)])


HOPS = ['queried twice', 'queried, then appended to', 'copied, then the original appended to', 'copied, then the copy appended to', 'moved',
        'move-assigned over another used one', 'used, a rejected append, used and appended to', 'appended to twice with queries between']


def memo_segment(c, G, N):
    """TCurveSegment::point_at is a function of the end jets and the normalised time (C09 pins it)"""
    seen = []
    acc = '_ZNK5resim6curves13TCurveSegmentINS_10transforms3%sEE4%sEv'

    def f(E, args, name):
        E.ctx.note_contract('TCurveSegment::point_at is a function of its end points and the time (C09)')
        key = []
        for e in ('orig', 'dest'):
            j = E.call(acc % (G.upper(), e), [args[1]])
            key += ghost_read(E, 'irv_rd_jl_' + G, j, N)
        key.append(E.real(args[2]))
        for k, v in seen:
            if all(E.ctx.alg.is_zero(a - b) for a, b in zip(k, key)):
                break
        else:
            n = len(seen)
            v = fresh_pose(E, G, 'S%d' % n) + [E.ctx.real('S%d.%d' % (n, i)) for i in range(N - (9 if G == 'so3' else 12))]
            seen.append((key, v))
        E.call('irv_mk_jl1_' + G, [args[0], E.call(acc % (G.upper(), 'orig'), [args[1]]), buf(E, v)])
    c.E.overrides = c.E.overrides + [(re.compile(r'resim::curves::TCurveSegment<resim::transforms::%s>::point_at\(double\) const' % G.upper()), f)]
    c.E._ov = {}


def tcurves(P, G, jet):
    N = 15 if G == 'so3' else 24
    for k, t in enumerate(HOPS):
        @P.contract('%s curve %s: queries, times and sizes are those of a fresh curve of the same points' % (G.upper(), t), name='%s_history[%d]' % (G, k),
                    samples=60, bound='2 points and at most 2 more (native runs: up to 12)')
        def h(c, k=k):
            n = 2 if c.symbolic else c.int('n', 2, 10, (2, 3, 4, 8))
            x, ts = [], []
            for i in range(n + 2):
                t = c.real('t%d' % i, -5, 5, special=(0.0, 1.0))
                if c.symbolic:
                    if ts:
                        c.assume(t > ts[-1])
                else:
                    t = 1.25 * i + (0.3 if i % 2 else 0) + (ts[0] if ts else t)
                ts.append(t)
                x += [t] + jet(c, G, 'p%d' % i)
            q = [c.real('q%d' % i, -6, 6) for i in range(3)]
            if not c.symbolic:
                q = [c.rng.choice((c.rng.choice(ts), c.rng.uniform(ts[0], ts[n - 1]), c.rng.uniform(ts[0] - 1, ts[-1] + 1))) for _ in q]
            else:
                memo_segment(c, G, N)
            o = c.call('h_hist_tc_' + G, x=x + q, k=[n, k], b=Z * 2, no=2 * (N + 3), nio=6, nbo=64)
            c.no_throw(o)
            same(c, o, [(N + 1, 2 * N + 4, 2)], [], [(0, 3), (1, 4), (2, 5)])
            if c.branch(o.io[0] == 0):
                same(c, o, [(0, N + 3, N)], [(0, 32, 32)])


def dcurves(P, Motion):
    for k, t in enumerate(HOPS):
        @P.contract('arc-length curve %s: queries, length and sizes are those of a fresh curve of the same poses' % t, name='history[%d]' % k,
                    samples=60, bound='2 poses and at most 2 more (native runs: up to 12)')
        def h(c, k=k):
            M = Motion(c)
            n = 2 if c.symbolic else c.int('n', 2, 10, (2, 3, 4, 8))
            x = sum([pose(c, 'se3', 'p%d' % i) for i in range(n + 2)], [])
            q = [c.real('q%d' % i, -1, 12) for i in range(3)]
            if not c.symbolic:
                q = [c.rng.choice((v, abs(v) * n / 5)) for v in q]
            o = c.call('h_hist_dc', x=x + q, k=[n, k], b=[1] * 16 + [2] * 16 + [1] * 16, no=26, nio=6, nbo=64)
            c.no_throw(o)
            same(c, o, [(12, 25, 1)], [], [(0, 3), (1, 4), (2, 5)])
            if c.branch(o.io[0] == 0):
                same(c, o, [(0, 13, 12)], [(0, 32, 32)])


def trajectories(P, state):
    for k, t in enumerate(HOPS):
        @P.contract('trajectory %s: queries, times and sizes are those of a fresh trajectory of the same states' % t, name='history[%d]' % k,
                    samples=60, bound='2 states and at most 2 more (native runs: up to 12)')
        def h(c, k=k):
            n = 2 if c.symbolic else c.int('n', 2, 10, (2, 3, 4, 8))
            x = sum([state(c, 'p%d' % i) for i in range(n + 2)], [])
            ts = [c.int('t0', -10 ** 12, 10 ** 12)]
            for i in range(n + 1):
                ts.append(ts[-1] + c.int('d%d' % i, 1, 10 ** 10, (1, 10 ** 9)))
            q = [c.int('q%d' % i, -10 ** 12, 10 ** 12) for i in range(3)]
            if not c.symbolic:
                q = [c.rng.choice((c.rng.choice(ts), c.rng.randint(ts[0], ts[n - 1]), c.rng.randint(ts[0] - 9, ts[-1] + 9))) for _ in q]
            else:
                memo_segment(c, 'se3', 24)
            o = c.call('h_hist_traj', x=x, k=[n, k, 0, 0] + q + [0] + ts, b=Z * 2, no=48, nio=10, nbo=64)
            c.no_throw(o)
            same(c, o, [], [], [(j, j + 5) for j in range(5)])
            if c.branch(o.io[0] == 0):
                same(c, o, [(0, 24, 24)], [(0, 32, 32)])


def segments(P, G, jet):
    N = 15 if G == 'so3' else 24

    @P.contract('%s segment queried at one time after another: the last result is that of a fresh segment' % G.upper(), name=G + '_history', samples=100)
    def h(c):
        n = 2 if c.symbolic else c.int('n', 2, 6)
        q = [c.real('q%d' % i, 0, 1, special=(0.0, 1.0, 0.5)) for i in range(n)]
        for v in q:
            c.assume(c.And(v >= 0, v <= 1))
        if c.symbolic:
            memo_exp(c, G)
        else:
            q = [min(1.0, max(0.0, v)) for v in q]
        o = c.call('h_hist_seg_' + G, x=jet(c, G, 'a') + jet(c, G, 'b') + q, k=[n], b=Z * 2, no=2 * N, nbo=64)
        c.no_throw(o)
        same(c, o, [(0, N, N)], [(0, 32, 32)])


def memo_exp(c, G):
    """exp and log are functions of their arguments (C03/C04 pin them)"""
    from .c09 import LOG, EXP, mk_group
    n, m = (3, 9) if G == 'so3' else (6, 12)
    logs, exps = [], []

    def look(tab, key, mk):
        for k, v in tab:
            if all(c.alg.is_zero(a - b) for a, b in zip(k, key)):
                return v
        v = mk(len(tab))
        tab.append((key, v))
        return v

    def log(E, args, name):
        c.note_contract('%s::log and exp are functions of their arguments (C03/C04)' % G.upper())
        wr_vec(E, args[0], look(logs, ghost_read(E, 'irv_rd_' + G, args[1], m), lambda i: [c.real('log%d_%d' % (i, j)) for j in range(n)]))

    def exp(E, args, name):
        mk_group(E, G, args[0], look(exps, rd_vec(E, args[1], n), lambda i: fresh_pose(E, G, 'X%d' % i)), args[2:])
    c.E.overrides = c.E.overrides + [(LOG(G), log), (EXP(G), exp)]
    c.E._ov = {}
