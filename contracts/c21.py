"""Messages of view primitives and updates."""
from .registry import Property
from .lib import *
from .symlib import *
from .c06 import fr, framed, frames_eq, Z
from .c08 import jet
from .c20 import pair, BIG
from .c11 import Motion
from . import c19

P = Property('C21', ['h_pb_view.cc'], bound='updates of at most 3 primitives; curves and trajectories inside them of one control point (C20 covers longer ones); names and file names of the listed lengths',
             assumptions=c19.P.assumptions)
KINDS = ('SE3', 'SO3', 'DCurve', 'TCurve', 'Trajectory', 'Frame', 'FramedVector')
NX = (12, 9, 12, 25, 25, 0, 3)
I32 = (1 << 31) - 1


class Prim:
    def __init__(self, c, tag, kind, name=None, file=0, printable=False):
        """name: None or its length"""
        self.kind, self.name, self.file = kind, name, file
        self.x = [0.0] * 26
        if kind in (0, 2):
            self.x[:12] = flat(c.rot(tag)) + c.vec(tag + 't')
        elif kind == 1:
            self.x[:9] = flat(c.rot(tag))
        elif kind in (3, 4):
            self.x[:24] = jet(c, 'se3', tag)
            self.x[24] = c.real(tag + '.time', -5, 5)
        elif kind == 6:
            self.x[:3] = c.vec(tag)
        self.id, self.into, self.from_ = fr(c, tag + '.id', tag + '.into', tag + '.from')
        if kind < 5:
            framed(c, self.into, self.from_)
        self.text = [c.int('%s.n%d' % (tag, i), -128, 127) for i in range(name or 0)]
        self.ftext = [c.int('%s.f%d' % (tag, i), 1 if printable else -128, 127) for i in range(file)]
        self.line = c.int(tag + '.line', -I32 - 1, I32)
        self.start = c.int(tag + '.start', -BIG - 1, BIG) if kind == 4 else 0
        self.k = [kind, int(name is not None), name or 0, file, self.line, self.start]
        self.b = self.id + self.into + self.from_ + self.text + [0] * (24 - len(self.text)) + self.ftext + [0] * (24 - len(self.ftext))


def same(c, o, p, i=0, io=0, label=''):
    """primitive number i of the output is p"""
    o_, bo = 26 * i, 96 * i
    c.holds(c.beq([o.bo[bo + j] for j in range(16)], p.id), label + 'identifier')
    c.ieq(o.io[io], p.kind, label + 'payload type')
    c.ieq(o.io[io + 6], 1, label + 'control points')
    n = NX[p.kind]
    c.eqv(vec(o.o, o_, n), p.x[:n], label + 'payload', tol=1e-9)
    if p.kind < 5:
        frames_eq(c, o, bo + 16, p.into, p.from_, label + 'payload')
    else:
        c.holds(c.beq([o.bo[bo + 16 + j] for j in range(16)], p.into), label + 'frame')
    if p.kind == 4:
        c.ieq(o.io[io + 5], p.start, label + 'start time')
    if not getattr(p, 'maybe_named', False):
        c.ieq(o.io[io + 1], 1 if p.name else 0, label + 'named')
    c.ieq(o.io[io + 2], p.name or 0, label + 'length of the name')
    for j, ch in enumerate(p.text):
        c.ieq(o.bo[bo + 48 + j], ch, label + 'name[%d]' % j)
    c.ieq(o.io[io + 3], p.file, label + 'length of the file name')
    for j, ch in enumerate(p.ftext):
        c.ieq(o.bo[bo + 72 + j], ch, label + 'file name[%d]' % j)
    c.ieq(o.io[io + 4], p.line, label + 'line number')


def primitive(kind, name, file, kind2, name2, file2):
    def f(c):
        if c.symbolic:
            Motion(c)
            pair(c, 'so3')
        p, q = Prim(c, 'p', kind, name, file), Prim(c, 'q', kind2, name2, file2)
        o = c.call('h_pb_prim', x=p.x + q.x, k=p.k + q.k, b=p.b + q.b, no=26, nio=8, nbo=96)
        c.no_throw(o)
        same(c, o, p)
        c.ieq(o.io[7], 1, 'no message')
    P.contract('primitive holding a %s (name: %s, file name: %d characters) packed over a message of a %s: restored with its identifier, type, payload, name, file and line' % (
        KINDS[kind], 'none' if name is None else '%d characters' % name, file, KINDS[kind2]), name='primitive[%s,%s,%d,%s]' % (KINDS[kind], name, file, KINDS[kind2]))(f)


for _k in range(7):
    for _k2 in range(7):
        primitive(_k, 3 if (_k + _k2) % 2 else None, 2 if _k % 2 else 17, _k2, None if (_k + _k2) % 3 else 5, 4)
for _n in (None, 1, 15, 16, 24):
    for _f in (0, 15, 24):
        primitive(5, _n, _f, 6, 20, 3)

for _a in (0, 1):
    for _b in (0, 1):
        @P.contract('a message without payload is rejected (%s identifier, %s name)' % (('no', 'an')[_a], ('no', 'a')[_b]), name='unset[%d,%d]' % (_a, _b))
        def unset(c, a=_a, b=_b):
            o = c.call('h_pb_prim_unset', k=[a, b], b=c.bytes('id'), nio=2)
            c.no_throw(o)
            c.ieq(o.io[0], 1, 'unpack throws')
            c.ieq(o.io[1], 1, 'status is bad')


def update(kinds, old):
    def f(c):
        if c.symbolic:
            Motion(c)
            pair(c, 'so3')
        ps = [Prim(c, 'p%d' % i, k, (2, None)[i % 2], i) for i, k in enumerate(kinds)]
        n = len(kinds)
        o = c.call('h_pb_update', x=sum([p.x for p in ps], []), k=[n - old[0], old[1]] + [0] * 6 + sum([p.k for p in ps], []),
                   b=sum([p.b for p in ps], []), no=26 * 4, nio=8 + 32, nbo=96 * 4)
        c.no_throw(o)
        m = n - old[0]
        c.ieq(o.io[0], m, 'number of primitives')
        c.ieq(o.io[1], m, 'number of packed primitives')
        c.ieq(o.io[2], 1, 'no message')
        for i in range(m):
            same(c, o, ps[i], i, 8 + 8 * i, 'primitive %d: ' % i)
    P.contract('update of %d primitives %s packed over a message of %d: every primitive restored once, in order' % (
        len(kinds) - old[0], [KINDS[k] for k in kinds[:len(kinds) - old[0]]], old[1]), name='update%s' % (list(kinds) + ['|'] + list(old),))(f)


update((), (0, 0))
for _k in range(7):
    update((_k,), (0, 0))
    update((_k, (_k + 1) % 7), (0, 0))
update((0, 5, 6), (0, 0))
update((6, 1, 0), (0, 0))
update((5, 5, 5), (0, 2))
update((6, 5, 1), (2, 3))
update((5, 6), (2, 2))
update((4, 3, 2), (1, 3))


for _n, _m in ((300, 0), (40, 20), (3, 60)):
    @P.contract('update of up to %d primitives whose curves have up to %d control points, with names and file names of up to 3000 characters: restored in order' % (_n, _m),
                name='long_update[%d,%d]' % (_n, _m), bound=None, samples=10, bounded_samples=10,
                bounded_only='many primitives, long texts and long curves inside primitives: executed natively on random batches')
    def long_update(c, n=_n, m=_m):
        q = c.int('n', 0, n, (n, 4, 5, 8, 16, 17, 33, 64, 65, 129, 257))
        o = c.call('h_pb_update_long', k=[q, c.int('old', 0, n), c.int('seed'), m], no=1, nio=2)
        c.no_throw(o)
        c.ieq(o.io[0], q, 'number of primitives')
        c.ieq(o.io[1], -1, 'every primitive restored')
