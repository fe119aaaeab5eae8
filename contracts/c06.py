from .registry import Property
from .lib import *
from . import alias
from .symlib import *

P = Property('C06', ['h_frames.cc', 'h_hist_g.cc', 'h_alias.cc'])
Z = [0] * 16


def fr(c, *names):
    return [c.bytes(n) for n in names]


def group(c, G, n):
    return flat(c.rot(n)) + (c.vec(n + 't') if G == 'se3' else [])


def framed(c, into, from_):
    """valid frames of an existing transform: neither or both null; returns True when framed"""
    c.assume(c.Iff(c.isnull(into), c.isnull(from_)))
    return c.Not(c.isnull(into))


def beq(c, got, want, label):
    for i in range(16):
        c.ieq(got[i], want[i], '%s[%d]' % (label, i))


def frames_eq(c, o, i, into, from_, label):
    c.holds(c.beq(o.bo[i:i + 16], into), label + ': into frame')
    c.holds(c.beq(o.bo[i + 16:i + 32], from_), label + ': from frame')


def mk(G):
    nm = G.upper()
    N = 9 if G == 'so3' else 12

    @P.contract(nm + ' composition: throws iff both framed and inner frames differ; result (a.into, b.from) when both are '
                'framed, unframed otherwise; value is the product', name=G + '_compose_frames')
    def compose(c):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        fa, fb = framed(c, ai, af), framed(c, bi, bf)
        A, B = group(c, G, 'a'), group(c, G, 'b')
        o = c.call('h_%s_fmul' % G, x=A + B, b=ai + af + bi + bf, no=N, nio=1, nbo=32)
        if c.throws_iff(o, c.And(fa, fb, c.Not(c.beq(af, bi))), 'inner frames'):
            return
        if c.branch(c.And(fa, fb)):
            frames_eq(c, o, 0, ai, bf, 'product')
            c.ieq(o.io[0], 1, 'framed')
        else:
            frames_eq(c, o, 0, Z, Z, 'product with an unframed operand')
            c.ieq(o.io[0], 0, 'unframed')
        if G == 'so3':
            c.eqm(m3(o.o), mm(m3(A), m3(B)), 'value')
        else:
            c.eqm(hom(m3(o.o), vec(o.o, 9)), mm(hom(m3(A), A[9:]), hom(m3(B), B[9:])), 'value')

    @P.contract(nm + ': inverse swaps frames; is_framed / verify_* report the frames; set_unframed clears both',
                name=G + '_frame_queries')
    def misc(c):
        ai, af, ci, cf = fr(c, 'ai', 'af', 'ci', 'cf')
        fa = framed(c, ai, af)
        A = group(c, G, 'a')
        o = c.call('h_%s_fmisc' % G, x=A, b=ai + af + ci + cf, no=N, nio=5, nbo=96)
        c.no_throw(o)
        frames_eq(c, o, 0, ai, af, 'constructed')
        frames_eq(c, o, 32, af, ai, 'inverse')
        frames_eq(c, o, 64, Z, Z, 'set_unframed')
        c.holds(c.Iff(o.io[0] == 1, fa), 'is_framed iff frames are not null')
        c.holds(c.Iff(o.io[1] == 1, c.beq(ai, ci)), 'verify_into')
        c.holds(c.Iff(o.io[2] == 1, c.beq(af, cf)), 'verify_from')
        c.holds(c.Iff(o.io[3] == 1, c.And(c.beq(ai, ci), c.beq(af, cf))), 'verify_frames')
        c.ieq(o.io[4], 0, 'unframed after set_unframed')
        c.eqv(o.o[0:N], A, 'value untouched')

    @P.contract(nm + ': set_frames throws iff a frame is null and then changes nothing; otherwise sets exactly these frames',
                name=G + '_set_frames')
    def setf(c):
        ai, af, ci, cf = fr(c, 'ai', 'af', 'ci', 'cf')
        framed(c, ai, af)
        A = group(c, G, 'a')
        o = c.call('h_%s_fset' % G, x=A, b=ai + af + ci + cf, no=N, nio=1, nbo=32)
        c.no_throw(o)
        bad = c.Or(c.isnull(ci), c.isnull(cf))
        c.holds(c.Iff(o.io[0] == 1, bad), 'throws iff null')
        if c.branch(bad):
            frames_eq(c, o, 0, ai, af, 'rejected')
        else:
            frames_eq(c, o, 0, ci, cf, 'accepted')
        c.eqv(o.o[0:N], A, 'value untouched')

    for kk in range(8 if G == 'so3' else 7):
        @P.contract(nm + ': no semi-framed transform can be constructed (constructor/factory %d); frames are stored' % kk,
                    name='%s_ctor_frames[%d]' % (G, kk))
        def ctor(c, kk=kk):
            ai, af = fr(c, 'ai', 'af')
            ri, rf = fr(c, 'ri', 'rf')
            c.assume(c.Not(c.Or(c.isnull(ri), c.isnull(rf))))
            A = c.vec('a', 12)
            o = c.call('h_%s_fctor' % G, x=A, k=[kk], b=ai + af + ri + rf, nio=2, nbo=32)
            if c.throws_iff(o, c.Not(c.Iff(c.isnull(ai), c.isnull(af))), 'semi-framed'):
                return
            frames_eq(c, o, 0, ai, af, 'stored')
            c.holds(c.Iff(o.io[0] == 1, c.Not(c.isnull(ai))), 'is_framed')
            if G == 'se3':
                c.ieq(o.io[1], 0, 'the inner rotation carries no frames')

    @P.contract(nm + ': rotating a framed vector throws iff unframed or frame mismatch; result is R v in the into frame',
                name=G + '_rotate_framed')
    def frot(c):
        ai, af, vf = fr(c, 'ai', 'af', 'vf')
        fa = framed(c, ai, af)
        A = group(c, G, 'a')
        v = c.vec('v')
        o = c.call('h_%s_frot' % G, x=A + v, b=ai + af + vf, no=3, nbo=16)
        if c.throws_iff(o, c.Or(c.Not(fa), c.Not(c.beq(af, vf))), 'frame of the vector'):
            return
        c.holds(c.beq(o.bo[0:16], ai), 'result frame')
        c.eqv(o.o[0:3], mv(m3(A), v), 'value')

    def any_log(E, args, name):
        # frames do not depend on the numerical value: the weakest contract of log() suffices
        E.ctx.note_contract(nm + '::log returns some tangent vector (C03/C04 pin its value)')
        wr_vec(E, args[0], [E.ctx.real('log%d' % i) for i in range(3 if G == 'so3' else 6)])
    ov = [(r'resim::transforms::%s::log\(\) const$' % nm, any_log)]

    @P.contract(nm + ': interp keeps both frames', name=G + '_interp_frames', overrides=ov)
    def interp(c):
        ai, af = fr(c, 'ai', 'af')
        framed(c, ai, af)
        A = group(c, G, 'a')
        f = c.real('f', -1, 2, special=(0.0, 1.0, -1.0))
        o = c.call('h_%s_finterp' % G, x=A + [f], k=[0], b=ai + af + Z, no=N, nbo=32)
        c.no_throw(o)
        frames_eq(c, o, 0, ai, af, 'interp')

    @P.contract(nm + ': interp with a new from frame throws iff unframed or the new frame is null; frames (into, new_from)',
                name=G + '_interp_new_from', overrides=ov)
    def interp2(c):
        ai, af, nf = fr(c, 'ai', 'af', 'nf')
        fa = framed(c, ai, af)
        A = group(c, G, 'a')
        f = c.real('f', -1, 2, special=(0.0, 1.0, -1.0))
        o = c.call('h_%s_finterp' % G, x=A + [f], k=[1], b=ai + af + nf, no=N, nbo=32)
        if c.throws_iff(o, c.Or(c.Not(fa), c.isnull(nf)), 'unframed or null'):
            return
        frames_eq(c, o, 0, ai, nf, 'interp')


mk('so3')
mk('se3')
for _k in range(4):
    @P.contract('SE3 constructors without frames give unframed transforms, even from a framed rotation (%d)' % _k,
                name='se3_unframed_ctor[%d]' % _k)
    def unctor(c, _k=_k):
        ri, rf = fr(c, 'ri', 'rf')
        c.assume(c.Not(c.Or(c.isnull(ri), c.isnull(rf))))
        A = group(c, 'se3', 'a')
        o = c.call('h_se3_unctor', x=A, k=[_k], b=Z + Z + ri + rf, nio=2, nbo=32)
        c.no_throw(o)
        frames_eq(c, o, 0, Z, Z, 'unframed')
        c.ieq(o.io[0], 0, 'is_framed')
        c.ieq(o.io[1], 0, 'rotation unframed')


@P.contract('framed vectors: sum throws iff frames differ and keeps the frame')
def framed_vector_add(c):
    p, q = fr(c, 'p', 'q')
    v, w = c.vec('v'), c.vec('w')
    o = c.call('h_fv_add', x=v + w, b=p + q, no=3, nbo=16)
    if c.throws_iff(o, c.Not(c.beq(p, q)), 'frames'):
        return
    c.holds(c.beq(o.bo[0:16], p), 'frame')
    c.eqv(o.o[0:3], add(v, w), 'sum')


@P.contract('new frames are not null and differ from each other; a vector built without a frame gets one of its own, so it cannot be added to another such vector')
def new_frames(c):
    v, w = c.vec('v'), c.vec('w')
    o = c.call('h_new_frames', x=v + w, no=9, nio=3)
    c.no_throw(o)
    c.ieq(o.io[2], 1, 'adding two vectors in frames of their own is rejected')
    c.ieq(o.io[0], 0, 'null or equal frames')
    c.eqv(o.o[0:9], v + w + add(v, v), 'coordinates')
    c.ieq(o.io[1], 1, 'default frame')


@P.contract('framed vectors: scaling keeps the frame; equality compares frame and coordinates; set_frame only relabels')
def framed_vector_ops(c):
    p, q = fr(c, 'p', 'q')
    v, w = c.vec('v'), c.vec('w')
    s = c.real('s')
    o = c.call('h_fv', x=v + w + [s], b=p + q, no=12, nio=1, nbo=48)
    c.no_throw(o)
    c.eqv(o.o[0:3], scale(s, v), 'v*s')
    c.eqv(o.o[3:6], scale(s, v), 's*v')
    c.holds(c.beq(o.bo[0:16], p), 'frame v*s')
    c.holds(c.beq(o.bo[16:32], p), 'frame s*v')
    c.holds(c.Iff(o.io[0] == 1, c.And(c.beq(p, q), *[c.req(x, y) for x, y in zip(v, w)])), 'operator==')
    c.eqv(o.o[6:9], add(v, w), 'sum with an unframed vector')
    c.holds(c.beq(o.bo[32:48], q), 'set_frame')
    c.eqv(o.o[9:12], v, 'set_frame keeps the coordinates')

from . import hist  # noqa: E402
hist.group(P, 'so3')
hist.group(P, 'se3')


alias.groups(P, ['so3', 'se3'], fv=True)
