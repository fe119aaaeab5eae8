"""Multivariate Gaussians.  The eigen-decomposition and the normal random generator are callees with assumed contracts:
the solver returns the spectrum (ascending) and an orthonormal eigenbasis of the matrix it is given, and the k-th draw
from a generator with a given seed is the k-th of a fixed sequence of independent standard normals (scaled and shifted by
the distribution's parameters).  The samples must then be, row by row, affine images of disjoint sets of draws whose
linear parts L satisfy L L^T = covariance: exactly the law N(mean, covariance), independent between rows."""
from irv.engine import Unsupported, Ptr
from irv import ir
from irv import reals as RL
from irv.reals import rc
from .registry import Property
from .lib import *

P = Property('C22', ['h_stats.cc'], assumptions=[
    'Eigen SelfAdjointEigenSolver::compute succeeds and yields ascending eigenvalues and orthonormal eigenvectors of its argument',
    'successive std::normal_distribution draws from std::mt19937 are independent standard normals'])
I64 = ir.IntTy(64)


def compute(E, a, n):
    """SelfAdjointEigenSolver::compute(matrix, options)"""
    s, m = a[0], a[1]
    sp = E.ghost.get('spectrum')
    if sp is None:
        raise Unsupported('eigen-decomposition')
    w, V = sp
    d = len(w)
    A = mm([[V[i][j] * w[j] for j in range(d)] for i in range(d)], tr(V))
    data, rows, cols = E.load(m, ir.PTR), E.toint(E.load(Ptr(m.obj, m.off + 8), I64)), E.toint(E.load(Ptr(m.obj, m.off + 16), I64))
    if rows != d or cols != d:
        raise Unsupported('eigen-decomposition of another size')
    for i in range(d):
        for j in range(i + 1):
            v = E.load(Ptr(data.obj, data.off + 8 * (i + d * j)), ir.DBL)
            if not E.ctx.entails(E.ctx.req(v, A[i][j])):
                raise Unsupported('eigen-decomposition of another matrix')
    ev, ew = E.load(s, ir.PTR), E.load(Ptr(s.obj, s.off + 24), ir.PTR)
    if E.toint(E.load(Ptr(s.obj, s.off + 8), I64)) != d or E.toint(E.load(Ptr(s.obj, s.off + 32), I64)) != d:
        raise Unsupported('unexpected solver layout')
    for i in range(d):
        E.store(RL.R_(w[i]), Ptr(ew.obj, ew.off + 8 * i), ir.DBL)
        for j in range(d):
            E.store(RL.R_(V[i][j]), Ptr(ev.obj, ev.off + 8 * (i + d * j)), ir.DBL)
    E.put(s.obj, s.off + 72, 4, 0)
    E.put(s.obj, s.off + 76, 1, 1)
    E.put(s.obj, s.off + 77, 1, 1)
    return s


def seed(E, a, n):
    E.put(a[0].obj, a[0].off, 8, 0)         # position in the sequence of draws


def draw(E, a, n):
    dist, rng = a[0], a[1]
    mean, sd = E.load(dist, ir.DBL), E.load(Ptr(dist.obj, dist.off + 8), ir.DBL)
    i = E.toint(E.get(rng.obj, rng.off, 8))
    E.put(rng.obj, rng.off, 8, i + 1)
    z = E.ghost['draws']
    if i >= len(z):
        raise Unsupported('more draws than expected')
    E.ghost['drawn'] = max(E.ghost.get('drawn', 0), i + 1)
    return RL.add(RL.mul(RL.R_(sd), RL.R_(z[i])), RL.R_(mean))


def coeff(sign):
    def f(E, a, n):
        """largest (smallest) coefficient of a 3x3 or larger matrix: some value bounding all entries"""
        m = a[0]
        data, rows, cols = E.load(m, ir.PTR), E.toint(E.load(Ptr(m.obj, m.off + 8), I64)), E.toint(E.load(Ptr(m.obj, m.off + 16), I64))
        vs = [E.load(Ptr(data.obj, data.off + 8 * i), ir.DBL) for i in range(rows * cols)]
        c = E.ctx
        if all(v.op == 'c' for v in vs):
            return (max if sign > 0 else min)(vs, key=lambda v: v.a[0])
        for s_, vs_, r_ in E.ghost.setdefault('cache', []):
            if s_ == sign and len(vs_) == len(vs) and all(x is y for x, y in zip(vs_, vs)):
                return r_
        r = c.fresh_real('maxCoeff' if sign > 0 else 'minCoeff')
        E.ghost['cache'].append((sign, vs, r))
        for v in vs:
            c.assume(rc('ge', RL.sub(r, v) if sign > 0 else RL.sub(v, r)))
        b = E.ghost.get('bound')
        if b is not None:
            for v in vs:
                if not (c.entails(rc('ge', RL.sub(b, v))) and c.entails(rc('ge', RL.add(v, b)))):
                    raise Unsupported('coefficient bound')
            c.assume(rc('ge', RL.sub(b, r)))
            c.assume(rc('ge', RL.add(b, r)))
        else:
            E.ghost.setdefault('coeffs', {})[sign] = (r, vs)
            o = E.ghost['coeffs'].get(-sign)
            if o and all(x is y for x, y in zip(o[1], vs)):
                c.assume(rc('ge', RL.sub(r, o[0]) if sign > 0 else RL.sub(o[0], r)))
        c.note_assumed('Eigen maxCoeff()/minCoeff() of the covariance bound its entries')
        return r
    return f


OV = [(r'(double )?Eigen::DenseBase<Eigen::Matrix<double, -1, -1, 0, -1, -1> ?>::maxCoeff(<0>)?\(\) const', coeff(1)),
      (r'(double )?Eigen::DenseBase<Eigen::Matrix<double, -1, -1, 0, -1, -1> ?>::minCoeff(<0>)?\(\) const', coeff(-1)),
      (r'Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, -1, -1, 0, -1, -1>.*>::compute|'
       r'.*\bEigen::SelfAdjointEigenSolver<Eigen::Matrix<double, -1, -1, 0, -1, -1> ?>& Eigen::SelfAdjointEigenSolver<.*>::compute<', compute),
      (r'(void )?std::mersenne_twister_engine<.*>::seed\(', seed),
      (r'(double )?std::normal_distribution<double>::operator\(\)<std::mersenne_twister_engine<.*> ?>\(std::mersenne_twister_engine<[^()]*>&\)$', draw)]


def spectrum(c, d, name='w'):
    """ascending eigenvalues and an orthogonal matrix"""
    if d == 1:
        V = [[1]]
    elif d == 2:
        u = c.unit('u', 2)
        V = [[u[0], -u[1]], [u[1], u[0]]]
    else:
        V = c.rot('V')
    w = [c.real('%s%d' % (name, i)) for i in range(d)]
    if c.symbolic:
        for i in range(d - 1):
            c.assume(c.Not(w[i] > w[i + 1]))
    else:
        w = sorted(w)
    return w, V


def build(w, V):
    d = len(w)
    return mm([[V[i][j] * w[j] for j in range(d)] for i in range(d)], tr(V))


def run(c, mu, A, w, V, n=0, m=0, draws=None, bound=None):
    d = len(mu)
    no = d + 2 * d * d + d + d * d + (n + m) * d
    if c.symbolic:
        c.E.ghost['spectrum'] = (w, V)
        c.E.ghost['draws'] = draws or []
        c.E.ghost['drawn'] = 0
        c.E.ghost['bound'] = bound
    return c.call('h_gauss', x=list(mu) + flat(A), k=[d, len(A), len(A[0]), n, m], no=no, nio=11)


for _d in (1, 2, 3):
    for _z in range(_d + 1):
        @P.contract('a %d-dimensional Gaussian of rank at least %d is accepted and exposes its parameters' % (_d, _d - _z), overrides=OV,
                    name='accepts[%d,%d]' % (_d, _z), bound='dimensions 1 to 3', ntol=1e-9)
        def accepts(c, d=_d, z=_z):
            mu = c.vec('mu', d)
            w, V = spectrum(c, d)
            if not c.symbolic:
                w = sorted(abs(v) + .01 for v in w)
            w = [0 * v for v in w[:z]] + w[z:]
            if z < d and c.symbolic:
                c.assume(w[z] > 0)
            A = build(w, V)
            if not c.symbolic:
                for i in range(d):
                    for j in range(i):
                        A[i][j] = A[j][i]
                if z and z < d and d > 1:
                    return _native_singular(c, mu, A)
            o = run(c, mu, A, w, V)
            c.no_throw(o)
            for i, e in enumerate((d, d, d, d, d, d, d)):
                c.ieq(o.io[i], e, 'size %d' % i)
            c.eqv(vec(o.o, 0, d), mu, 'mean')
            q = d
            c.eqm(mat(o.o, q, d, d), A, 'covariance')
            q += d * d
            lam = vec(o.o, q, d)
            q += d
            Q = mat(o.o, q, d, d)
            q += d * d
            S = mat(o.o, q, d, d)
            for i in range(d):
                c.holds(lam[i] >= 0, 'eigenvalue %d is not negative' % i)
            c.eqm(build(lam, Q), A, 'spectral decomposition')
            c.eqm(mm(tr(Q), Q), eye(d), 'orthonormal eigenvectors')
            c.eqm(mm(S, S), [[lam[i] if i == j else 0 for j in range(d)] for i in range(d)], 'square root of the eigenvalues')


def _native_singular(c, mu, A):
    """rounding may make the computed eigenvalue of a singular matrix slightly negative: accepted or not, never a NaN"""
    d = len(mu)
    o = run(c, mu, A, None, None, 3)
    if o.kind != 'ret':
        c.holds(o.exc == 'assert', 'rejected with an assertion')
        return
    q = d + d * d
    for i in range(d):
        c.holds(o.o[q + i] >= 0, 'eigenvalue %d is not negative' % i)
    for v in o.o:
        c.holds(v == v, 'finite')


for _d in (1, 2, 3):
    @P.contract('a %d-dimensional covariance with a clearly negative eigenvalue is rejected' % _d, overrides=OV, name='negative[%d]' % _d, bound='dimensions 1 to 3')
    def negative(c, d=_d):
        mu = c.vec('mu', d)
        w, V = spectrum(c, d)
        A = build(w, V)
        if not c.symbolic:
            for i in range(d):
                for j in range(i):
                    A[i][j] = A[j][i]
        tol = c.real('tol', lo=0, hi=10, nonneg=True)
        for r in A:
            for v in r:
                c.assume(c.And(v <= tol, v >= -tol))
        c.assume(w[0] < -(tol + 1) * 1e-12)
        o = run(c, mu, A, w, V, bound=tol if c.symbolic else None)
        c.throws(o, 'rejected', exc='assert')

    @P.contract('an accepted %d-dimensional Gaussian has no negative eigenvalue and no NaN' % _d, overrides=OV, name='sanitized[%d]' % _d, bound='dimensions 1 to 3')
    def sanitized(c, d=_d):
        mu = c.vec('mu', d)
        w, V = spectrum(c, d)
        A = build(w, V)
        if not c.symbolic:
            for i in range(d):
                for j in range(i):
                    A[i][j] = A[j][i]
        o = run(c, mu, A, w, V)
        if o.kind != 'ret':
            c.holds(o.exc == 'assert', 'rejected with an assertion')
            return
        q = d + d * d
        for i in range(d):
            c.holds(o.o[q + i] >= 0, 'eigenvalue %d is not negative' % i)


SHAPES = [(n, r, s) for n in (1, 2, 3) for r in (1, 2, 3) for s in (1, 2, 3) if not n == r == s]


@P.contract('a covariance whose size does not match the mean is rejected', overrides=OV, bound='sizes 1 to 3')
def mismatch(c):
    for n, r, s in SHAPES:
        mu = c.vec('mu%d%d%d' % (n, r, s), n)
        A = c.mat('A%d%d%d' % (n, r, s), r, s)
        if c.symbolic:
            c.E.ghost['spectrum'] = None
        o = c.call('h_gauss', x=mu + flat(A), k=[n, r, s, 0, 0], no=64, nio=11)
        c.throws(o, 'mean %d, covariance %dx%d' % (n, r, s), exc='assert')


for _d in (2, 3):
    for _i in range(_d):
        for _j in range(_i):
            @P.contract('a covariance whose entries (%d,%d) and (%d,%d) differ by more than 1e-9 of its norm is rejected (dimension %d)' % (_i, _j, _j, _i, _d), overrides=OV,
                        name='asymmetric[%d,%d,%d]' % (_d, _i, _j), bound='dimensions 2 and 3')
            def asymmetric(c, d=_d, i=_i, j=_j):
                mu = c.vec('mu', d)
                # symmetric and skew parts
                S, K = c.mat('S', d, d), c.mat('K', d, d)
                if not c.symbolic:
                    e = 10. ** -c.int('scale', 0, 9)
                    K = [[e * v for v in r] for r in K]
                A = [[(S[p][q] + K[p][q]) if p > q else (S[q][p] - K[q][p]) if p < q else S[p][p] for q in range(d)] for p in range(d)]
                n2 = dot(flat(A), flat(A))
                c.assume((A[i][j] - A[j][i]) * (A[i][j] - A[j][i]) * 10 ** 18 > n2)
                if c.symbolic:
                    c.E.ghost['spectrum'] = None
                o = c.call('h_gauss', x=mu + flat(A), k=[d, d, d, 0, 0], no=64, nio=11)
                c.throws(o, 'rejected', exc='assert')


for _d, _n, _m in ((1, 1, 0), (1, 3, 2), (2, 1, 1), (2, 2, 1), (2, 3, 0), (3, 2, 0), (3, 0, 2)):
    @P.contract('%d samples drawn at once and %d one at a time in %d dimensions follow the law: mean, covariance, independence' % (_n, _m, _d), overrides=OV,
                name='law[%d,%d,%d]' % (_d, _n, _m), bound='dimensions 1 to 3, at most 5 samples')
    def law(c, d=_d, n=_n, m=_m):
        mu = c.vec('mu', d)
        w, V = spectrum(c, d)
        if not c.symbolic:
            return native_law(c, mu, [abs(v) + .1 for v in w], V)
        c.assume(w[0] > 0)
        A = build(w, V)
        N = (n + m) * d
        at = d + d * d + d + 2 * d * d

        def sample(z):
            o = run(c, mu, A, w, V, n, m, z)
            c.no_throw(o)
            c.ieq(o.io[10], 1, 'width of a single sample')
            if n:
                c.ieq(o.io[8], n, 'one row per sample')
                c.ieq(o.io[9], d, 'one column per dimension')
            c.holds(c.E.ghost['drawn'] <= N, 'draws used')
            return [o.o[at + i] for i in range(N)]
        base = sample([0] * N)
        for i in range(N):
            c.eq(base[i], mu[i % d], 'zero draws give the mean (entry %d)' % i)
        L = []
        for q in range(N):
            s = sample([1 if i == q else 0 for i in range(N)])
            L.append([s[i] - base[i] for i in range(N)])
        z = [c.real('z%d' % i) for i in range(N)]
        s = sample(z)
        for i in range(N):
            c.eq(s[i], base[i] + dot([L[q][i] for q in range(N)], z), 'samples are affine in the draws (entry %d)' % i)
        for i in range(N):
            for j in range(i + 1):
                e = A[i % d][j % d] if i // d == j // d else 0
                c.eq(dot([L[q][i] for q in range(N)], [L[q][j] for q in range(N)]), e,
                     'covariance of sample %d entry %d and sample %d entry %d' % (i // d, i % d, j // d, j % d))


def native_law(c, mu, w, V):
    d = len(mu)
    A = build(w, V)
    for i in range(d):
        for j in range(i):
            A[i][j] = A[j][i]
    n, m = 1500, 60
    o = c.call('h_gauss', x=list(mu) + flat(A), k=[d, d, d, n, m], no=3 * d * d + 2 * d + 8 + (n + m) * d, nio=11)
    c.no_throw(o)
    c.ieq(o.io[8], n, 'one row per sample')
    c.ieq(o.io[9], d, 'one column per dimension')
    c.ieq(o.io[10], 1, 'width of a single sample')
    at = d + d * d + d + 2 * d * d
    N = n + m
    Z = []
    for r in range(N):
        e = [o.o[at + r * d + i] - mu[i] for i in range(d)]
        Z.append([sum(V[i][q] * e[i] for i in range(d)) / w[q] ** .5 for q in range(d)])
    s = sum(w) ** .5
    for q in range(d):
        c.holds(abs(sum(z[q] for z in Z) / N) < 6 / N ** .5, 'whitened mean %d' % q)
        for r in range(q + 1):
            v = sum(z[q] * z[r] for z in Z) / N
            c.holds(abs(v - (q == r)) < 9 / N ** .5, 'whitened covariance %d %d' % (q, r))
        # successive samples are uncorrelated and never repeat
        c.holds(abs(sum(Z[i][q] * Z[i + 1][q] for i in range(N - 1)) / N) < 6 / N ** .5, 'successive samples %d' % q)
        c.holds(len({round(z[q], 9) for z in Z}) > N - 3, 'samples do not repeat (%d)' % q)
        # normal tails
        t = sum(1 for z in Z if abs(z[q]) > 1) / N
        c.holds(abs(t - .3173) < .08, 'one-sigma tail %d' % q)


# ---- more dimensions than the proofs cover (native runs)
BIGD = dict(bounded_only='dimensions 4 to 12: executed natively on random covariances', samples=60, bounded_samples=60, bound=None)


def orthogonal(c, d):
    import numpy as np
    r = np.random.default_rng(c.rng.randrange(1 << 30))
    q, _ = np.linalg.qr(r.normal(size=(d, d)))
    return [[float(v) for v in row] for row in q]


def symmetric(A):
    for i in range(len(A)):
        for j in range(i):
            A[i][j] = A[j][i]
    return A


@P.contract('Gaussians of 4 to 12 dimensions are accepted and expose their parameters and spectrum', name='accepts[big]', **BIGD)
def accepts_big(c):
    d = c.rng.randrange(4, 13)
    mu = [c.rng.uniform(-5, 5) for _ in range(d)]
    V = orthogonal(c, d)
    w = sorted(10 ** c.rng.uniform(-3, 2) for _ in range(d))
    A = symmetric(build(w, V))
    o = run(c, mu, A, w, V)
    c.no_throw(o)
    for i in range(7):
        c.ieq(o.io[i], d, 'size %d' % i)
    c.eqv(vec(o.o, 0, d), mu, 'mean', tol=0)
    q = d
    c.eqm(mat(o.o, q, d, d), A, 'covariance', tol=0)
    q += d * d
    lam = vec(o.o, q, d)
    c.eqv(lam, w, 'eigenvalues', tol=1e-9 * max(w))
    q += d
    Q = mat(o.o, q, d, d)
    q += d * d
    S = mat(o.o, q, d, d)
    c.eqm(build(lam, Q), A, 'spectral decomposition', tol=1e-9 * max(w))
    c.eqm(mm(S, S), [[lam[i] if i == j else 0 for j in range(d)] for i in range(d)], 'square root of the eigenvalues', tol=1e-9 * max(w))


@P.contract('covariances of 4 to 12 dimensions with one negative eigenvalue, one asymmetric pair of entries or a wrong size are rejected', name='rejects[big]', **BIGD)
def rejects_big(c):
    d = c.rng.randrange(4, 13)
    mu = [c.rng.uniform(-5, 5) for _ in range(d)]
    V = orthogonal(c, d)
    w = sorted(10 ** c.rng.uniform(-2, 2) for _ in range(d))
    A = symmetric(build(w, V))
    kind = c.rng.randrange(3)
    if kind == 0:
        w[c.rng.randrange(d)] *= -1
        A = symmetric(build(w, V))
    elif kind == 1:
        i = c.rng.randrange(1, d)
        A[i][c.rng.randrange(i)] += c.rng.choice([-1, 1]) * max(w) * 10 ** c.rng.uniform(-6, 0)
    else:
        mu = mu[:c.rng.randrange(1, d)] if c.rng.random() < .5 else mu + [0.0] * c.rng.randrange(1, 4)
    o = c.call('h_gauss', x=mu + flat(A), k=[len(mu), d, d, 0, 0], no=800, nio=11)
    c.throws(o, ('negative eigenvalue', 'asymmetric', 'size mismatch')[kind], exc='assert')


@P.contract('samples of Gaussians of 4 to 8 dimensions follow the law', name='law[big]', **dict(BIGD, samples=8, bounded_samples=8))
def law_big(c):
    d = c.rng.randrange(4, 9)
    mu = [c.rng.uniform(-5, 5) for _ in range(d)]
    native_law(c, mu, sorted(10 ** c.rng.uniform(-1, 1) for _ in range(d)), orthogonal(c, d))
