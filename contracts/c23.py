"""Sample statistics."""
from .registry import Property
from .lib import *

P = Property('C23', ['h_stats.cc'])
QUICK = [(n, d) for n in range(1, 6) for d in range(1, 4)] + [(2, 4), (3, 5), (7, 2), (1, 5)]
SLOW = [(9, 3), (6, 6), (12, 2), (17, 1)]

for _n, _d in QUICK + SLOW:
    @P.contract('%d samples of dimension %d: mean and covariance' % (_n, _d), name='estimators[%dx%d]' % (_n, _d),
                bound='the sizes listed (up to 7 x 2 and 3 x 5; thorough tier up to 17 x 1 and 6 x 6)',
                tier='quick' if (_n, _d) in QUICK else 'thorough')
    def estimators(c, n=_n, d=_d):
        S = c.mat('s', n, d)
        if not c.symbolic and c.rng.random() < .3:
            off = c.rng.choice([1e3, 1e6])
            S = [[v + off for v in r] for r in S]
        big = max([1.0] + [abs(float(v)) for r in S for v in r]) if not c.symbolic else 1.0
        o = c.call('h_mean', x=flat(S), k=[n, d], no=d, nio=2)
        c.no_throw(o)
        c.ieq(o.io[0], d, 'rows of the mean')
        c.ieq(o.io[1], 1, 'columns of the mean')
        m = [_avg(c, [S[i][j] for i in range(n)], n) for j in range(d)]
        c.eqv(vec(o.o, 0, d), m, 'mean', tol=None if c.symbolic else 1e-13 * n * big)
        o = c.call('h_cov', x=flat(S), k=[n, d], no=d * d, nio=2)
        if n < 2:
            c.throws(o, 'covariance of one sample is rejected', exc='assert')
            return
        c.no_throw(o)
        c.ieq(o.io[0], d, 'rows of the covariance')
        c.ieq(o.io[1], d, 'columns of the covariance')
        for p in range(d):
            for q in range(d):
                e = _avg(c, [(S[i][p] - m[p]) * (S[i][q] - m[q]) for i in range(n)], n - 1)
                c.eq(o.o[p * d + q], e, 'covariance[%d][%d]' % (p, q), tol=None if c.symbolic else 1e-12 * n * big * big)
                c.eq(o.o[p * d + q], o.o[q * d + p], 'symmetric[%d][%d]' % (p, q), tol=None if c.symbolic else 1e-12 * n * big * big)


def _avg(c, vs, n):
    s = vs[0]
    for v in vs[1:]:
        s = s + v
    return s / n if not c.symbolic else s * (c.r(1) / c.r(n))


for _d in (1, 2, 3):
    @P.contract('the covariance of no samples is rejected (dimension %d)' % _d, name='no_samples[%d]' % _d)
    def no_samples(c, d=_d):
        o = c.call('h_cov', k=[0, d], no=d * d, nio=2)
        c.throws(o, 'rejected', exc='assert')


@P.contract('up to 3000 samples of up to 12 dimensions: mean and covariance', name='estimators[big]', samples=30, bounded_samples=30,
            bounded_only='many samples: executed natively against the textbook formulas')
def big(c):
    import numpy as np
    n = c.int('n', 1, 3000, (2, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257, 1000, 1025))
    d = c.rng.randrange(1, 13)
    r = np.random.default_rng(c.rng.randrange(1 << 30))
    S = r.normal(size=(n, d)) * 10 ** r.uniform(-2, 2, size=d) + r.choice([0.0, 1.0, 1e3])
    o = c.call('h_mean', x=[float(v) for v in S.reshape(-1)], k=[n, d], no=d, nio=2)
    c.no_throw(o)
    m = S.mean(axis=0)
    c.eqv(vec(o.o, 0, d), [float(v) for v in m], 'mean', tol=1e-9)
    o = c.call('h_cov', x=[float(v) for v in S.reshape(-1)], k=[n, d], no=d * d, nio=2)
    if n < 2:
        c.throws(o, 'covariance of one sample is rejected', exc='assert')
        return
    c.no_throw(o)
    C = (S - m).T @ (S - m) / (n - 1)
    c.eqv(vec(o.o, 0, d * d), [float(v) for v in C.reshape(-1)], 'covariance', tol=1e-9 * max(1.0, float(abs(C).max())))
