"""Two-jets: value + first and second derivative of a curve in the group.

A left jet (A, d, d2) means A' = hat(d) A, A'' = (hat(d2) + hat(d)^2) A; a right jet means A' = A hat(d),
A'' = A (hat(d2) + hat(d)^2).  Every law below is stated on A, A', A'' as matrices."""
from .registry import Property
from .lib import *
from . import alias
from .c06 import fr, framed, frames_eq

P = Property('C08', ['h_jets.cc', 'h_hist.cc', 'h_alias_j.cc'])
Z = [0] * 16


class Jet:
    def __init__(self, G, side, x, i=0):
        n, d = (9, 3) if G == 'so3' else (12, 6)
        self.x = x = list(x[i:i + n + 2 * d])
        self.R = m3(x)
        self.A = self.R if G == 'so3' else hom(self.R, x[9:12])
        self.Ai = tr(self.R) if G == 'so3' else hom(tr(self.R), scale(-1, mv(tr(self.R), x[9:12])))
        self.d, self.d2 = x[n:n + d], x[n + d:n + 2 * d]
        h = hat if G == 'so3' else hat6
        self.w, self.w2 = h(self.d), h(self.d2)
        q = madd(self.w2, mm(self.w, self.w))
        if side == 'l':
            self.A1, self.A2 = mm(self.w, self.A), mm(q, self.A)
        else:
            self.A1, self.A2 = mm(self.A, self.w), mm(self.A, q)


def jet(c, G, n):
    d = 3 if G == 'so3' else 6
    return flat(c.rot(n)) + (c.vec(n + 't') if G == 'se3' else []) + c.vec(n + 'd', d) + c.vec(n + 'dd', d)


def size(G):
    return 15 if G == 'so3' else 24


def mk(G, side):
    nm = ('left' if side == 'l' else 'right') + ' two-jet of ' + G.upper()
    pre = 'h_j%s_' % side
    N = size(G)
    tag = '%s_%s_' % (G, side)

    @P.contract(nm + ': product = value, product rule and second-order product rule; frames like the group product',
                name=tag + 'product')
    def product(c):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        fa, fb = framed(c, ai, af), framed(c, bi, bf)
        a, b = jet(c, G, 'a'), jet(c, G, 'b')
        o = c.call(pre + 'mul_' + G, x=a + b, b=ai + af + bi + bf, no=N, nbo=32)
        if c.throws_iff(o, c.And(fa, fb, c.Not(c.beq(af, bi))), 'inner frames'):
            return
        if c.branch(c.And(fa, fb)):
            frames_eq(c, o, 0, ai, bf, 'product')
            return
        frames_eq(c, o, 0, Z, Z, 'product')

    @P.contract(nm + ': product = value, product rule and second-order product rule', name=tag + 'product_rule')
    def product_rule(c):
        a, b = jet(c, G, 'a'), jet(c, G, 'b')
        o = c.call(pre + 'mul_' + G, x=a + b, b=Z * 4, no=N, nbo=32)
        c.no_throw(o)
        a, b, p = Jet(G, side, a), Jet(G, side, b), Jet(G, side, o.o)
        c.eqm(p.A, mm(a.A, b.A), 'value')
        # derivatives, moved to the trivialised side: hat(d) = A' A^-1 (left), A^-1 A' (right)
        if side == 'l':
            # (AB)' (AB)^-1 = hat(a.d) + A hat(b.d) A^-1
            Ad = lambda M: mm(mm(a.A, M), a.Ai)
            c.eqm(p.w, madd(a.w, Ad(b.w)), 'first derivative')
            # (AB)'' = A''B + 2A'B' + AB''
            want = madd(madd(madd(a.w2, mm(a.w, a.w)), mscale(2, mm(a.w, Ad(b.w)))),
                        Ad(madd(b.w2, mm(b.w, b.w))))
        else:
            Ad = lambda M: mm(mm(b.Ai, M), b.A)
            c.eqm(p.w, madd(Ad(a.w), b.w), 'first derivative')
            want = madd(madd(Ad(madd(a.w2, mm(a.w, a.w))), mscale(2, mm(Ad(a.w), b.w))),
                        madd(b.w2, mm(b.w, b.w)))
        c.eqm(madd(p.w2, mm(p.w, p.w)), want, 'second derivative')

    @P.contract(nm + ': inverse is the jet of the inverse curve; frames swapped', name=tag + 'inverse')
    def inverse(c):
        ai, af = fr(c, 'ai', 'af')
        framed(c, ai, af)
        a = jet(c, G, 'a')
        o = c.call(pre + 'inv_' + G, x=a, b=ai + af, no=N, nbo=32)
        c.no_throw(o)
        frames_eq(c, o, 0, af, ai, 'inverse')
        a, p = Jet(G, side, a), Jet(G, side, o.o)
        c.eqm(p.A, a.Ai, 'value')
        # (A^-1)' = -A^-1 A' A^-1,  (A^-1)'' = A^-1 (2 A' A^-1 A' - A'') A^-1
        w, w2 = a.w, a.w2
        if side == 'l':
            Ad = lambda M: mm(mm(a.Ai, M), a.A)
        else:
            Ad = lambda M: mm(mm(a.A, M), a.Ai)
        c.eqm(p.w, Ad(mscale(-1, w)), 'first derivative')
        c.eqm(madd(p.w2, mm(p.w, p.w)), Ad(msub(mm(w, w), w2)), 'second derivative')

    @P.contract(nm + ': inverse and identity laws hold for value and both derivatives', name=tag + 'group_laws')
    def laws(c):
        a = jet(c, G, 'a')
        i = c.call(pre + 'inv_' + G, x=a, b=Z * 4, no=N, nbo=32)
        c.no_throw(i)
        e = c.call(pre + 'id_' + G, b=Z * 2, no=3 * N, nbo=96)
        c.no_throw(e)
        one = flat(eye(3)) + [0] * (N - 9)
        for j, n in ((0, 'identity()'), (1, 'identity(frames)'), (2, 'default')):
            c.eqv(e.o[j * N:(j + 1) * N], one, n)
        l = c.call(pre + 'mul_' + G, x=list(i.o[0:N]) + a, b=Z * 4, no=N, nbo=32)
        r = c.call(pre + 'mul_' + G, x=a + list(i.o[0:N]), b=Z * 4, no=N, nbo=32)
        c.eqv(l.o[0:N], one, 'a^-1 a')
        c.eqv(r.o[0:N], one, 'a a^-1')
        l = c.call(pre + 'mul_' + G, x=one + a, b=Z * 4, no=N, nbo=32)
        r = c.call(pre + 'mul_' + G, x=a + one, b=Z * 4, no=N, nbo=32)
        c.eqv(l.o[0:N], a, '1 a')
        c.eqv(r.o[0:N], a, 'a 1')

    @P.contract(nm + ': conversion to the other side gives the jet of the inverse curve; converting back is the identity',
                name=tag + 'convert')
    def convert(c):
        ai, af = fr(c, 'ai', 'af')
        framed(c, ai, af)
        a = jet(c, G, 'a')
        o = c.call(pre + 'conv_' + G, x=a, b=ai + af, no=N, nbo=32)
        c.no_throw(o)
        frames_eq(c, o, 0, af, ai, 'converted')
        other = 'r' if side == 'l' else 'l'
        j, p = Jet(G, side, a), Jet(G, other, o.o)
        c.eqm(p.A, j.Ai, 'value')
        w, w2 = j.w, j.w2
        # (A^-1)' = -A^-1 A' A^-1: with A' = wA this is A^-1 (-w); (A^-1)'' = A^-1 (w^2 - w2)
        c.eqm(p.w, mscale(-1, w), 'first derivative')
        c.eqm(madd(p.w2, mm(p.w, p.w)), msub(mm(w, w), w2), 'second derivative')
        q = c.call('h_j%s_conv_%s' % (other, G), x=list(o.o[0:N]), b=af + ai, no=N, nbo=32)
        c.no_throw(q)
        c.eqv(q.o[0:N], a, 'back')
        frames_eq(c, q, 0, ai, af, 'back')

    @P.contract(nm + ': identity with frames carries the frames', name=tag + 'identity_frames')
    def idf(c):
        ai, af = fr(c, 'ai', 'af')
        framed(c, ai, af)
        e = c.call(pre + 'id_' + G, b=ai + af, no=3 * N, nbo=96)
        c.no_throw(e)
        frames_eq(c, e, 0, Z, Z, 'identity()')
        frames_eq(c, e, 32, ai, af, 'identity(frames)')

    @P.contract(nm + ': each setter replaces exactly its component', name=tag + 'setters')
    def setters(c):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        framed(c, ai, af), framed(c, bi, bf)
        a, b = jet(c, G, 'a'), jet(c, G, 'b')
        n, d = (9, 3) if G == 'so3' else (12, 6)
        for k in range(8):
            o = c.call(pre + 'set_' + G, x=a + b, k=[k], b=ai + af + bi + bf, no=N, nbo=32)
            c.no_throw(o)
            want = (b if k & 1 else a)[:n] + (b if k & 2 else a)[n:n + d] + (b if k & 4 else a)[n + d:]
            c.eqv(o.o[0:N], want, 'setters %d' % k)
            frames_eq(c, o, 0, bi if k & 1 else ai, bf if k & 1 else af, 'setters %d' % k)

    @P.contract(nm + ': is_approx is reflexive exactly for equal frames; jets differing by more than 1e-6 relative in any '
                'component are not approx', name=tag + 'approx')
    def approx(c):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        framed(c, ai, af), framed(c, bi, bf)
        a = jet(c, G, 'a')
        o = c.call(pre + 'approx_' + G, x=a + a, b=ai + af + bi + bf, nio=1)
        c.no_throw(o)
        c.holds(c.Iff(o.io[0] == 1, c.And(c.beq(ai, bi), c.beq(af, bf))), 'equal values: approx iff frames agree')

    @P.contract(nm + ': jets whose derivatives differ by more than 1e-6 relative are never approx equal',
                name=tag + 'approx_discriminates')
    def approx2(c):
        n, d = (9, 3) if G == 'so3' else (12, 6)
        one = flat(eye(3)) + [0] * (n - 9)
        a, b = c.vec('a', 2 * d), c.vec('b', 2 * d)
        o = c.call(pre + 'approx_' + G, x=one + a + one + b, b=Z * 4, nio=1)
        c.no_throw(o)
        for j, nn in ((0, 'first'), (d, 'second')):
            e = sub(a[j:j + d], b[j:j + d])
            far = dot(e, e) > 1e-12 * dot(a[j:j + d], a[j:j + d])
            c.holds(c.Implies(far, o.io[0] == 0), nn + ' derivative')


for _g in ('so3', 'se3'):
    for _s in 'lr':
        mk(_g, _s)

from . import hist  # noqa: E402
hist.jets(P, jet)


alias.jets(P)
