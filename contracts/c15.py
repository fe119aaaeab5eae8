"""Sampling an interval of timestamps."""
from .registry import Property
from .c14 import MAX, MIN, SPECIAL

P = Property('C15', ['h_time.cc'])


def inputs(c, few=False):
    s = c.int('s', special=SPECIAL + (3, 8, 1000))
    e = c.int('e', special=SPECIAL + (3, 8, 1000))
    dt = c.int('dt', special=(1, 2, 3, 5, 7, 1000, MAX, MAX // 2, MAX // 3, MAX // 3 + 1, 1 << 62))
    if not c.symbolic:
        how = c.int('how', 0, 9)
        if how == 0:
            e = s
        elif how == 1 and 0 < dt < 1 << 50 and abs(s) < 1 << 60:
            # a whole number of steps
            e = s + c.int('steps', -40, 40) * dt
    return s, e, dt


def expected(c, s, e, dt):
    """(total, throws, number of intervals as a value with its defining facts)"""
    d = e - s
    total = c.pick(d < 0, -d, d)
    bad = c.Or(dt <= 0, d > MAX, d <= MIN, c.And(dt == 1, total == MAX))
    return total, bad


@P.contract('num_samples is the least n >= 1 with (n-1)*max_dt >= |end - start|; throws iff max_dt <= 0 or the difference or '
            'n does not fit', rounding=True)
def num_samples(c):
    s, e, dt = inputs(c)
    o = c.call('h_num_samples_t', k=[s, e, dt], nio=1)
    total, bad = expected(c, s, e, dt)
    if c.throws_iff(o, bad, 'precondition'):
        return
    n = o.io[0]
    c.holds(n >= 1, 'at least one sample')
    c.holds((n - 1) * dt >= total, 'steps are no longer than max_dt')
    c.holds(c.Or(n == 1, (n - 2) * dt < total), 'no fewer samples would do')


def sampling(name, side):
    P.contract('sample_interval visits exactly num_samples timestamps in order from start to end, the i-th being a nearest '
               'nanosecond to start + i (end-start)/(n-1); throws iff num_samples does, before visiting anything (%s '
               'intervals)' % name, timeout=20, budget=300, rounding=True, name='sample_interval_' + name)(lambda c: sample_interval(c, side, name))


def sample_interval(c, side, name):
    s, e, dt = inputs(c)
    if not c.symbolic:
        if name == 'empty':
            e = s
        elif not side(s, e):
            s, e = e, s
    c.assume(side(s, e))
    if not c.symbolic:
        # keep the number of samples small enough to run
        if abs(e - s) <= MAX and s != e and dt > 0:
            n = -(-abs(e - s) // dt)
            if n > 60:
                dt = abs(e - s) // (1 + n % 59)
    if c.symbolic and c.branch(s == e):
        seen = []
        c.on_emit = lambda i, ev: seen.append(ev)
        o = c.call('h_sample_t', k=[s, e, dt])
        c.no_throw(o)
        c.ieq(len(seen), 1, 'one sample')
        for ev in seen:
            c.ieq(ev[4], s, 'the sample is the instant')
        return
    total, bad = expected(c, s, e, dt)
    if c.symbolic:
        # number of intervals: least m >= 1 with m*dt >= total
        m = c.fresh_int('m')
        up = c.branch(e > s)
        c.assume(c.Implies(c.Not(bad), c.And(m >= 1, m * dt >= total, (m - 1) * dt < total, m <= total)))
        T = e - s if up else s - e
        c.mono(0, dt - 1, m)
        c.mono(1, dt - 1, m)

        def on_div(q, r, a, b):
            # lemma instances: the quotients the code computes
            c.mono(q + 1, m, b)
            c.mono(0, q, b)
            c.mono(1, q, b)
        c.on_div = on_div

        def on_emit(i, ev):
            c.holds(c.Not(bad), 'nothing is visited before a throw')
            t = ev[4]
            d = t - s if up else s - t
            c.holds(c.And(i >= 0, i <= m), 'index in range')
            c.mono(i, m, T)
            c.mono(d, T, m)
            c.holds(2 * (d * m - i * T) <= m, 'nearest timestamp (not too late)')
            c.holds(2 * (i * T - d * m) <= m, 'nearest timestamp (not too early)')
            c.holds(c.Implies(i == 0, d == 0), 'first sample is the start')
            c.holds(c.Implies(i == m, d == T), 'last sample is the end')
        c.on_emit = on_emit

        def inv(v):
            c.mono(v.ii, m, T)
            c.mono(v.whole, T, m)
            return [('index', c.And(v.ii >= 0, v.ii <= m + 1, v.n == v.ii)),
                    ('mixed number', c.And(v.whole >= 0, v.whole <= T, v.numerator >= 0, v.numerator < m)),
                    ('1 ns intervals', c.Implies(m == T, v.numerator == 0)),
                    ('position', c.And(c.Implies(v.ii <= m, v.whole * m + v.numerator == v.ii * T),
                                       c.Implies(v.ii > m, v.whole * m + v.numerator == m * T)))]

        c.loop(r'resim::time::sample_interval\(.*time_point', (['ii', 'whole', 'numerator'], inv))
        o = c.call('h_sample_t', k=[s, e, dt])
        if c.throws_iff(o, bad, 'precondition'):
            return
        c.ieq(o.nghost, m + 1, 'number of samples')
        return
    o = c.call('h_sample_t', k=[s, e, dt])
    em = [g[4] for g in o.ghost]
    if s == e:
        c.no_throw(o)
        c.ieq(len(em), 1, 'one sample')
        c.ieq(em[0], s, 'the sample is the instant')
        return
    if bad:
        c.ieq(len(em), 0, 'nothing is visited before a throw')
    if c.throws_iff(o, bad, 'precondition'):
        return
    m = -(-total // dt)
    c.ieq(len(em), m + 1, 'number of samples')
    for i, t in enumerate(em):
        c.holds(abs(2 * ((t - s) * m - i * (e - s))) <= m, 'nearest timestamp')
    c.ieq(em[0], s, 'first sample is the start')
    c.ieq(em[-1], e, 'last sample is the end')


sampling('forward', lambda s, e: e > s)
sampling('backward', lambda s, e: e < s)
sampling('empty', lambda s, e: e == s)
