"""Rigid-body states."""
from .registry import Property
from .lib import *
from . import alias
from .c06 import fr, framed, frames_eq
from .c08 import Jet

P = Property('C12', ['h_state.cc', 'h_hist.cc', 'h_alias_j.cc'])
Z = [0] * 16


def state(c, n):
    """pose, angular+linear velocity, angular+linear acceleration"""
    return flat(c.rot(n)) + c.vec(n + 't') + c.vec(n + 'v', 6) + c.vec(n + 'a', 6)


def coherent(c, o, label):
    """all getters agree: single, bundled, two-jet (rotation part first)"""
    c.eqv(o.o[24:36], o.o[12:24], label + ': bundled derivatives')
    c.eqv(o.o[36:60], o.o[0:24], label + ': two-jet')


NAMES = {0: 'pose and derivatives', 1: 'pose only (derivatives zero)', 2: 'right two-jet', 3: 'identity()', 4: 'identity(frames)', 5: 'default'}
for _k, _n in NAMES.items():
    @P.contract('a state built from %s exposes exactly that through every getter, with the frames of the pose' % _n,
                name='construct[%d]' % _k)
    def construct(c, k=_k):
        i, f = fr(c, 'i', 'f')
        framed(c, i, f)
        x = state(c, 'a')
        o = c.call('h_state_ctor', x=x, k=[k], b=i + f, no=60, nbo=32)
        c.no_throw(o)
        one = flat(eye(3)) + [0] * 15
        want = x if k in (0, 2) else x[:12] + [0] * 12 if k == 1 else one
        c.eqv(o.o[0:24], want, 'state')
        coherent(c, o, 'getters')
        if k in (3, 5):
            frames_eq(c, o, 0, Z, Z, 'state')
        else:
            frames_eq(c, o, 0, i, f, 'state')

for _k, (_n, _lo, _hi) in enumerate([('pose', 0, 12), ('angular velocity', 12, 15), ('linear velocity', 15, 18),
                                      ('angular acceleration', 18, 21), ('linear acceleration', 21, 24)]):
    @P.contract('setting the %s changes exactly that' % _n, name='set_' + _n.replace(' ', '_'))
    def setter(c, k=_k, lo=_lo, hi=_hi):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        framed(c, ai, af), framed(c, bi, bf)
        x, y = state(c, 'a'), state(c, 'b')
        o = c.call('h_state_set', x=x + y, k=[k], b=ai + af + bi + bf, no=60, nbo=32)
        c.no_throw(o)
        c.eqv(o.o[0:24], x[:lo] + y[lo:hi] + x[hi:], 'state')
        coherent(c, o, 'getters')
        if k == 0:
            frames_eq(c, o, 0, bi, bf, 'pose')
        else:
            frames_eq(c, o, 0, ai, af, 'pose')


def second(j):
    """A^-1 A'' for a right jet"""
    return madd(j.w2, mm(j.w, j.w))


for _op in ('mul', 'invtimes'):
    _t = 'composition' if _op == 'mul' else 'observation from another body (inverse_times)'

    @P.contract(_t + ': pose, velocity and acceleration are those of the composed motion (product rule)', name=_op + '_value')
    def value(c, op=_op):
        x, y = state(c, 'a'), state(c, 'b')
        o = c.call('h_state_' + op, x=x + y, b=Z * 4, no=60, nbo=32)
        c.no_throw(o)
        a, b, p = Jet('se3', 'r', x), Jet('se3', 'r', y), Jet('se3', 'r', o.o)
        if op == 'mul':
            A, w, q = a.A, a.w, second(a)
        else:
            # jet of A^-1: right derivative -A w A^-1, second A (w^2 - w2) A^-1
            A, Ai = a.Ai, a.A
            conj = lambda M: mm(mm(a.A, M), a.Ai)
            w = conj(mscale(-1, a.w))
            q = conj(msub(mm(a.w, a.w), a.w2))
        c.eqm(p.A, mm(A, b.A), 'pose')
        Ad = lambda M: mm(mm(b.Ai, M), b.A)
        c.eqm(p.w, madd(Ad(w), b.w), 'velocity')
        c.eqm(second(p), madd(madd(Ad(q), mscale(2, mm(Ad(w), b.w))), second(b)), 'acceleration')
        coherent(c, o, 'getters')

    @P.contract(_t + ': frames follow the pose; mismatching frames are rejected', name=_op + '_frames')
    def frames_(c, op=_op):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        fa, fb = framed(c, ai, af), framed(c, bi, bf)
        x, y = state(c, 'a'), state(c, 'b')
        o = c.call('h_state_' + op, x=x + y, b=ai + af + bi + bf, no=60, nbo=32)
        inner, outer = (af, ai) if op == 'mul' else (ai, af)
        if c.throws_iff(o, c.And(fa, fb, c.Not(c.beq(inner, bi))), 'inner frames'):
            return
        if c.branch(c.And(fa, fb)):
            frames_eq(c, o, 0, outer, bf, 'result')
        else:
            frames_eq(c, o, 0, Z, Z, 'result')

from . import hist  # noqa: E402
hist.states(P, state)


alias.states(P)
