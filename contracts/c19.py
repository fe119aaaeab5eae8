"""Messages of identifiers, frames, transforms and framed vectors."""
from .registry import Property
from .lib import *
from .symlib import *
from .c06 import fr, framed, group, frames_eq, Z

P = Property('C19', ['h_pb_tf.cc'], assumptions=[
    'libprotobuf functions outside its headers (string fields, growth of repeated message fields, destruction) are stood in for by harness/pbruntime.cc; '
    'wire encoding and parsing of a message are the library\'s',
    'message classes are generated by the installed protoc from the current .proto files'])


def ids(c, o, i, want, label):
    c.holds(c.beq([o.bo[i + j] for j in range(16)], want), label)


@P.contract('identifier: unpack(pack(u)) == u, also over a message that holds another identifier, and from a copy of the message')
def uuid(c):
    a, b = fr(c, 'a', 'b')
    o = c.call('h_pb_uuid', b=a + b, nbo=48)
    c.no_throw(o)
    ids(c, o, 0, a, 'first')
    ids(c, o, 16, b, 'second')
    ids(c, o, 32, b, 'copy')


@P.contract('frame: unpack(pack(f)) == f, null or not, also over a used message')
def frame(c):
    a, b = fr(c, 'a', 'b')
    o = c.call('h_pb_frame', b=a + b, nbo=32)
    c.no_throw(o)
    ids(c, o, 0, a, 'first')
    ids(c, o, 16, b, 'second')


@P.contract('framed vector: unpack(pack(v)) has exactly the same coordinates and frame, also over a used message')
def framed_vector(c):
    a, b = fr(c, 'a', 'b')
    v, w = c.vec('v'), c.vec('w')
    o = c.call('h_pb_fv', x=v + w, b=a + b, no=6, nbo=32)
    c.no_throw(o)
    c.eqv(vec(o.o), v, 'coordinates', tol=0)
    c.eqv(vec(o.o, 3), w, 'coordinates (second)', tol=0)
    ids(c, o, 0, a, 'frame')
    ids(c, o, 16, b, 'frame (second)')


def mk(G):
    nm = G.upper()
    N = 9 if G == 'so3' else 12

    def rt(c, into=0):
        ai, af, bi, bf = fr(c, 'ai', 'af', 'bi', 'bf')
        fa = framed(c, ai, af)
        framed(c, bi, bf)
        A, B = group(c, G, 'a'), group(c, G, 'b')
        o = c.call('h_pb_' + G, x=A + B, k=[into], b=ai + af + bi + bf, no=2 * N, nio=1, nbo=32)
        c.no_throw(o)
        frames_eq(c, o, 0, ai, af, 'restored')
        c.holds(c.Iff(o.io[0] == 1, fa), 'framed')
        c.eqv(vec(o.o, 0, N), vec(o.o, N, N), 'value', tol=1e-12)
        if not c.symbolic:
            c.eqv(vec(o.o, 0, N), A, 'value restored', tol=1e-6)

    P.contract(nm + ': unpack(pack(g)) has the frames of g (or none) and the value exp(log g), which C03/C04 prove to be g; also over a used message', name=G,
               overrides=[pure_log(G)])(rt)
    P.contract(nm + ': unpacking into a transform in use gives the packed one', name=G + '_over', overrides=[pure_log(G)])(lambda c: rt(c, 1))


mk('so3')
mk('se3')


@P.contract('packing into no message is rejected')
def null_target(c):
    o = c.call('h_pb_null', x=c.vec('v'), b=c.bytes('a'), nio=6)
    c.no_throw(o)
    for i, t in enumerate(('identifier', 'frame', 'framed vector', 'SO3', 'SE3', 'matrix')):
        c.ieq(o.io[i], 1, t)


# how the identifier of a frame is written: 0 missing, 1 null, 2 arbitrary, n+3: the first n characters of an arbitrary one
def usable(c, kind, b):
    """-> None when the identifier is malformed, else its bytes"""
    return {0: None, 1: Z, 2: b}.get(kind, b if kind == 39 else None)


def malformed(G, n, ki, kf):
    dof = {'so3': 3, 'se3': 6, 'fv': 3}[G]

    def f(c):
        a, b = fr(c, 'a', 'b')
        v = c.vec('v', max(n, 1))
        o = c.call('h_pb_bad_' + G, x=v, k=[n, ki, kf], b=a + b, no=dof, nio=1, nbo=32)
        c.no_throw(o)
        i, f = usable(c, ki, a), Z if G == 'fv' else usable(c, kf, b)
        ok = n == dof and i is not None and f is not None
        if ok and G != 'fv':
            ok = c.Iff(c.isnull(i), c.isnull(f))
        if not c.branch(ok):
            c.ieq(o.io[0], 1, 'rejected')
            return
        c.ieq(o.io[0], 0, 'accepted')
        ids(c, o, 0, i, 'into frame' if G != 'fv' else 'frame')
        if G == 'fv':
            c.eqv(vec(o.o), v, 'coordinates', tol=0)
        else:
            ids(c, o, 16, f, 'from frame')
    return f


for _G, _d in (('so3', 3), ('se3', 6)):
    for _n, _i, _f in [(n, 2, 2) for n in range(9)] + [(_d, i, f) for i in range(3) for f in range(3) if (i, f) != (2, 2)] + [
            (_d, 3, 2), (_d, 2, 38), (_d, 35, 2), (_d, 39, 39), (_d, 4, 1)]:
        P.contract('%s message with %d numbers (needs %d) and identifier forms %d/%d: accepted exactly when the size is right and both identifiers are well formed '
                   'and both or neither are null' % (_G.upper(), _n, _d, _i, _f), name='%s_message[%d,%d,%d]' % (_G, _n, _i, _f),
                   overrides=[pure_log(_G)])(malformed(_G, _n, _i, _f))
for _n, _i in [(n, 2) for n in range(6)] + [(3, i) for i in (0, 1, 3, 38, 39)]:
    P.contract('framed vector message with %d numbers (needs 3) and identifier form %d' % (_n, _i), name='fv_message[%d,%d]' % (_n, _i))(malformed('fv', _n, _i, 0))

for _m, _s in (('23', 6), ('31', 3), ('14', 4)):
    for _n in (0, 1, _s - 1, _s, _s + 1, 2 * _s):
        @P.contract('matrix %s: every entry comes back in place; unpacking %d numbers is rejected exactly when the size differs' % ('x'.join(_m), _n),
                    name='matrix%s[%d]' % (_m, _n))
        def matrix(c, m=_m, s=_s, n=_n):
            x = c.vec('m', 2 * s)
            o = c.call('h_pb_mat' + m, x=x, k=[n], no=s, nio=2)
            c.no_throw(o)
            c.ieq(o.io[1], s, 'entries packed')
            c.eqv(vec(o.o, 0, s), x[:s], 'entry', tol=0)
            c.ieq(o.io[0], 0 if n == s else 1, 'rejected exactly when the size differs')
