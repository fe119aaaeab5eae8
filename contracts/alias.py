"""One object standing for both operands gives what two equal objects give (whose values the other contracts fix)."""
from .lib import *


def fr(c):
    """frames of an object: neither or both null, possibly equal"""
    if c.symbolic:
        i, f = c.bytes('i'), c.bytes('f')
    else:
        i, f = c.bytes('i'), c.bytes('f')
        h = c.int('how', 0, 3)
        if h == 0:
            i = f = [0] * 16
        elif h < 3:
            f = i
    c.assume(c.Iff(c.isnull(i), c.isnull(f)))
    return i, f


def same(c, o, x, b, n, w, pairs=(), ob=0):
    """results 1-4 equal result 0; result 5 is the untouched object; b: frame bytes per result"""
    thrown = o.io[0]
    for i in range(1, 5):
        c.ieq(o.io[i], thrown, 'the same object on both sides is rejected like a copy (%d)' % i)
    if c.branch(thrown == 0):
        for i in range(1, 5):
            c.eqv(vec(o.o, w * i, n), vec(o.o, 0, n), 'same object on both sides (%d)' % i)
            c.holds(c.beq(o.bo[len(b) * i:len(b) * (i + 1)], o.bo[0:len(b)]), 'frames (%d)' % i)
    c.eqv(vec(o.o, 5 * w, n), x, 'operand unchanged')
    c.holds(c.beq(o.bo[5 * len(b):6 * len(b)], b), 'frames of the operand unchanged')
    for p, q in pairs:
        c.ieq(o.io[q], o.io[p], 'comparison %d' % q)


def groups(P, Gs, dist=False, fv=False):
    for G in Gs:
        @P.contract('%s: products, comparisons, frame setting and inversion of an object with itself agree with those of an equal copy' % G.upper(), name='alias_' + G)
        def one(c, G=G):
            i, f = fr(c)
            x = flat(c.rot('a')) + (c.vec('t') if G == 'se3' else [])
            o = c.call('h_alias_' + G, x=x, b=i + f, no=96, nio=13, nbo=288)
            c.no_throw(o)
            n = len(x)
            same(c, o, x, i + f, n, 12, ((6, 7), (8, 9), (10, 11)))
            c.ieq(o.io[8], 1, 'approximately itself')
            c.ieq(o.io[10], 1, 'its own frames')
            null = c.isnull(i)
            c.holds(c.Iff(o.io[12] == 1, null), 'exchanging its own frames is rejected iff unframed')
            if c.branch(c.Not(null)):
                c.holds(c.beq(o.bo[192:224], f + i), 'its own frames exchanged')
            else:
                c.holds(c.beq(o.bo[192:224], i + f), 'unchanged on rejection')
            R = m3(x)
            if G == 'so3':
                c.eqm(m3(o.o, 72), tr(R), 'inverse assigned back')
            else:
                c.eqm(hom(m3(o.o, 72), vec(o.o, 81)), hom(tr(R), scale(-1, mv(tr(R), x[9:]))), 'inverse assigned back')
            c.holds(c.beq(o.bo[224:256], f + i), 'frames of the inverse')
            c.eqv(vec(o.o, 84, n), x, 'assigned to itself')
            c.holds(c.beq(o.bo[256:288], i + f), 'frames when assigned to itself')
    if dist:
        @P.contract('the distances of a pose to itself are those to an equal copy: zero', name='alias_distance')
        def distance(c):
            i, f = fr(c)
            x = flat(c.rot('a')) + c.vec('t')
            o = c.call('h_alias_dist', x=x, b=i + f, no=4)
            c.no_throw(o)
            for j in range(4):
                c.eq(o.o[j], 0, 'distance %d' % j)
    if fv:
        @P.contract('framed vectors: sum and comparisons of a vector with itself agree with those of an equal copy', name='alias_vector')
        def vector(c):
            i, _ = fr(c)
            x = c.vec('v')
            o = c.call('h_alias_fv', x=x, b=i, no=18, nio=10, nbo=96)
            c.no_throw(o)
            same(c, o, x, i, 3, 3, ((6, 7), (8, 9)))
            c.ieq(o.io[0], 0, 'accepted')
            c.ieq(o.io[6], 1, 'approximately itself')
            c.ieq(o.io[8], 1, 'equal to itself')


def jets(P):
    for S in 'lr':
        for G in ('so3', 'se3'):
            @P.contract('%s two-jets of %s: product and comparison of a jet with itself agree with those of an equal copy' % ({'l': 'left', 'r': 'right'}[S], G.upper()),
                        name='alias_%s_%s' % (S, G))
            def one(c, S=S, G=G):
                d = 3 if G == 'so3' else 6
                i, f = fr(c)
                x = flat(c.rot('a')) + (c.vec('t') if G == 'se3' else []) + c.vec('d', d) + c.vec('dd', d)
                o = c.call('h_alias_%s_%s' % (S, G), x=x, b=i + f, no=144, nio=8, nbo=192)
                c.no_throw(o)
                same(c, o, x, i + f, len(x), 24, ((6, 7),))
                c.ieq(o.io[6], 1, 'approximately itself')


def states(P):
    for h in (0, 1):
        @P.contract('states: %s of a state with itself agrees with that of an equal copy' % ('composition', 'observation')[h], name='alias_%s' % ('compose', 'observe')[h])
        def one(c, h=h):
            i, f = fr(c)
            x = flat(c.rot('a')) + c.vec('t') + c.vec('d', 6) + c.vec('dd', 6)
            o = c.call('h_alias_state', x=x, k=[h], b=i + f, no=144, nio=5, nbo=192)
            c.no_throw(o)
            same(c, o, x, i + f, 24, 24)
