"""Oracle arithmetic usable with symbolic reals and with floats."""


def flat(m):
    return [v for r in m for v in r]


def m3(o, i=0):
    return [[o[i + 3 * r + c] for c in range(3)] for r in range(3)]


def mat(o, i, n, m):
    return [[o[i + m * r + c] for c in range(m)] for r in range(n)]


def vec(o, i=0, n=3):
    return [o[i + j] for j in range(n)]


def mm(a, b):
    return [[_sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def _sum(it):
    r = None
    for v in it:
        r = v if r is None else r + v
    return 0 if r is None else r


def mv(a, v):
    return [_sum(a[i][k] * v[k] for k in range(len(v))) for i in range(len(a))]


def tr(a):
    return [[a[j][i] for j in range(len(a))] for i in range(len(a[0]))]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def scale(s, a):
    return [s * x for x in a]


def dot(a, b):
    return _sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def hat(w):
    return [[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]


def madd(a, b):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]


def msub(a, b):
    return [[x - y for x, y in zip(r, s)] for r, s in zip(a, b)]


def mscale(s, a):
    return [[s * x for x in r] for r in a]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def zeros(n, m):
    return [[0] * m for _ in range(n)]


def hom(R, t):
    """4x4 homogeneous matrix"""
    return [list(R[i]) + [t[i]] for i in range(3)] + [[0, 0, 0, 1]]


def hat6(v):
    """4x4 matrix of a twist (rotation part first)"""
    W = hat(v[:3])
    return [W[i] + [v[3 + i]] for i in range(3)] + [[0, 0, 0, 0]]


def unhat(M):
    return [M[2][1], M[0][2], M[1][0]]


def unhat6(M):
    return unhat(M) + [M[0][3], M[1][3], M[2][3]]


def rodrigues(c, u, th):
    """rotation matrix by angle th about unit u"""
    s, co = c.sin(th), c.cos(th)
    K = hat(u)
    return [[(1 if i == j else 0) * co + s * K[i][j] + (1 - co) * u[i] * u[j] for j in range(3)] for i in range(3)]


def det3(m):
    return dot(m[0], cross(m[1], m[2]))


def edge(c, t, lo, hi, eps=0.0):
    """native runs: often a query at or just beyond the ends of the range"""
    import math
    if c.symbolic or getattr(c, 'preset', None) or c.rng.random() < .5:
        return t
    lo_, hi_ = (math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)) if not eps else (lo - eps, hi + eps)
    return c.rng.choice((lo, hi, lo_, hi_) if not eps else (lo_, hi_, lo + eps, hi - eps))


def framed_too(P, mixed=False):
    """the contracts registered with this decorator are also proved with framed operands (arbitrary frames)"""
    def contract(title, name=None, **kw):
        def d(f):
            P.contract(title, name=name, **kw)(f)
            for tag, word in (('_f', 'framed'),) + ((('_m', 'one framed'),) if mixed else ()):
                def g(c, tag=tag):
                    fr = c.bytes('fr.into') + c.bytes('fr.mid') + c.bytes('fr.from')
                    for i in (0, 16, 32):
                        c.assume(c.Not(c.isnull(fr[i:i + 16])))
                    call = c.call
                    c.call = lambda h, **k: call(h + tag, b=fr, **k)
                    try:
                        f(c)
                    finally:
                        c.call = call
                P.contract('%s (%s)' % (title, word), name=(name or f.__name__) + tag, **kw)(g)
            return f
        return d
    return contract
