"""Reference wrappers and variant matching."""
from .registry import Property

P = Property('C26', ['h_refs.cc'])


def wrap(v):
    return (v + (1 << 63)) % (1 << 64) - (1 << 63)


for _w in range(4):
    @P.contract('a nullable reference to object %d of 3 (3: none): reads, writes, copies and rebinding' % _w, name='nullable[%d]' % _w)
    def nullable(c, w=_w):
        B = 1 << 61
        v = [c.int('v%d' % i, -B, B) for i in range(6)]
        nw = [c.int('w%d' % i, -B, B) for i in range(2)]
        o = c.call('h_nref', k=v + [w] + nw, nio=18 + 7 + 4)
        c.no_throw(o)
        for r in range(3):
            q = o.io[6 * r:6 * r + 6]
            lab = ['reference', 'copy', 'assigned copy'][r]
            c.ieq(q[0], int(w < 3), lab + ': has_value')
            c.ieq(q[1], int(w < 3), lab + ': bool')
            if w < 3:
                c.ieq(q[2], w, lab + ': address')
                c.ieq(q[3], v[2 * w], lab + ': read through *')
                c.ieq(q[4], v[2 * w] - v[2 * w + 1], lab + ': read through ->')
                c.ieq(q[5], 0, lab + ': no throw')
            else:
                c.ieq(q[5], 2, lab + ': both dereferences throw')
        c.ieq(o.io[18], 0 if w < 3 else 2, 'writes throw exactly when empty')
        e = list(v)
        if w < 3:
            e[2 * w], e[2 * w + 1] = nw
        for i in range(6):
            c.ieq(o.io[19 + i], e[i], 'only the referenced object is written (%d)' % i)
        c.ieq(o.io[25], 1, 'rebound: has_value')
        c.ieq(o.io[26], 0, 'rebound: address')
        c.ieq(o.io[27], w if w < 3 else -1, 'rebinding a copy leaves the original')
        c.ieq(o.io[28], 0, 'reset to null')


@P.contract('nullable references to constants and to integers')
def nullable_const(c):
    v = [c.int('v%d' % i) for i in range(4)]
    o = c.call('h_nref_const', k=v, nio=7)
    c.no_throw(o)
    for i, e in enumerate([v[0], 1, v[2], v[3], 0, 0, 77]):
        c.ieq(o.io[i], e, 'observation %d' % i)


@P.contract('an in-out parameter always reaches the object it was given')
def inout(c):
    B = 1 << 61
    v = [c.int('v%d' % i, -B, B) for i in range(10)]
    o = c.call('h_inout', k=v, nio=12)
    c.no_throw(o)
    for i, e in enumerate([v[0], 1, v[6], v[7], v[1] + 1, v[4] - v[5], 1, v[8], v[9], v[4], v[5], v[1] + 1]):
        c.ieq(o.io[i], e, 'observation %d' % i)


for _w in range(5):
    @P.contract('matching a variant that holds alternative %d' % _w, name='match[%d]' % _w)
    def matching(c, w=_w):
        v = [c.int('v%d' % i) for i in range(4)]
        x = [c.real('x'), c.real('y')]
        o = c.call('h_match', k=[w] + v, x=x, no=2, nio=14)
        c.no_throw(o)
        c.ieq(o.io[0], 10 + w, 'result of the branch')
        for i in range(5):
            c.ieq(o.io[2 + i], int(i == w), 'calls of branch %d' % i)
        if w < 4:
            c.ieq(o.io[1], v[0], 'value seen by the branch')
            c.ieq(o.io[9], v[1], 'a write through the branch reaches the held object')
        else:
            c.eq(o.o[0], x[0], 'value seen by the branch', tol=0)
            c.eq(o.o[1], x[1], 'a write through the branch reaches the held object', tol=0)
        c.ieq(o.io[7], v[0] if w in (1, 2) else 99, 'catch-all branch')
        c.ieq(o.io[8], w, 'held alternative unchanged')
        c.ieq(o.io[10], int(w != 0), 'reference result is the object returned')
        c.ieq(o.io[11], v[2 if w == 0 else 3], 'value through a reference result')
        c.ieq(o.io[12], w, 'const variant')
        c.ieq(o.io[13], v[0] if w < 4 else 0, 'temporary variant')


for _w in range(2):
    @P.contract('matching a moved variant with move-only alternatives (%d)' % _w, name='match_move[%d]' % _w)
    def match_move(c, w=_w):
        v = c.int('v')
        o = c.call('h_match_move', k=[w, v], nio=2)
        c.no_throw(o)
        c.ieq(o.io[0], v, 'value')
        c.ieq(o.io[1], 1, 'moved out')
