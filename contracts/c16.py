"""Sampling an interval of real time."""
import math
from fractions import Fraction
from .registry import Property

P = Property('C16', ['h_time.cc'])


def inputs(c):
    s = c.real('s', -50, 50, special=(0.0, 1.0, -3.5))
    e = c.real('e', -50, 50, special=(0.0, 1.0, 2.5))
    dt = c.real('dt', -0.5, 20, special=(0.0, 1.0, 0.5, 0.25, 100.0))
    if not c.symbolic:
        how = c.int('how', 0, 9)
        if how == 0:
            e = s
        elif how == 1:
            # a whole number of steps
            e = s + c.int('steps', -40, 40) * dt
        elif how == 2:
            s, e, dt = s * 1e6, s * 1e6 + e, abs(dt) + .01
    return s, e, dt


@P.contract('num_samples(double) is the least n >= 1 with (n-1)*max_dt >= |end - start|; throws iff max_dt <= 0')
def num_samples(c):
    s, e, dt = inputs(c)
    T = c.pick(e >= s, e - s, s - e)
    c.assume(c.Or(dt <= 0, T <= dt * float(1 << 62)))
    o = c.call('h_num_samples_d', x=[s, e, dt], nio=1)
    if c.throws_iff(o, dt <= 0, 'max_dt not positive'):
        return
    n = o.io[0]
    c.holds(n >= 1, 'at least one sample')
    if c.symbolic:
        r = c.toreal(n)
        c.holds((r - 1) * dt >= T, 'steps no longer than max_dt')
        c.holds(c.Or(n == 1, (r - 2) * dt < T), 'no fewer samples would do')
    else:
        tol = 1e-12 * (1 + abs(T))
        c.holds((n - 1) * dt >= T - tol, 'steps no longer than max_dt')
        c.holds(n == 1 or (n - 2) * dt < T + tol, 'no fewer samples would do')


@P.contract('sample_interval(double) visits exactly num_samples points in order, the i-th being start + i (end-start)/(n-1), the '
            'first exactly start and the last exactly end; an empty interval is visited once; throws iff max_dt <= 0',
            timeout=20)
def sample_interval(c):
    s, e, dt = inputs(c)
    if not c.symbolic and dt > 0 and abs(e - s) / dt > 300:
        dt = abs(e - s) / 300
    T = c.pick(e >= s, e - s, s - e)
    c.assume(c.Or(dt <= 0, T <= dt * float(1 << 62)))
    empty = c.branch(c.req(s, e))
    if c.symbolic:
        m = c.fresh_int('m', 0, 1 << 62)
        r = c.toreal(m)
        c.assume(c.Or(dt <= 0, c.And(r * dt >= T, (r - 1) * dt < T)))

        def on_emit(i, ev):
            t = ev[0]
            if empty:
                c.holds(i == 0, 'one sample')
                c.eq(t, s, 'the sample is the instant')
                return
            c.holds(dt > 0, 'nothing is visited before a throw')
            c.holds(c.And(i >= 0, i <= m), 'index in range')
            x = c.toreal(i)
            c.holds(c.req(t * r, (r - x) * s + x * e), 'even spacing')
        c.on_emit = on_emit

        def on_int(n):
            # the step count the code computes is the specified one (proved here, then used)
            for z in (n, -n):
                if c.entails(c.Or(dt <= 0, z == m)):
                    c.assume(c.Or(dt <= 0, z == m))
                    if c.entails(dt > 0):
                        c.assume(z == m)
                    return
        c.on_int = on_int
        c.loop(r'resim::time::sample_interval\(double', (['ii'], lambda v: [
            ('index', c.And(v.ii >= 0, v.ii <= m + 1, v.n == v.ii))]))
        o = c.call('h_sample_d', x=[s, e, dt])
        if empty:
            c.no_throw(o)
            c.ieq(o.nghost, 1, 'one sample')
            return
        if c.throws_iff(o, dt <= 0, 'max_dt not positive'):
            return
        c.ieq(o.nghost, m + 1, 'number of samples')
        return
    o = c.call('h_sample_d', x=[s, e, dt])
    em = [g[0] for g in o.ghost]
    if empty:
        c.no_throw(o)
        c.ieq(len(em), 1, 'one sample')
        c.holds(em[0] == s, 'the sample is the instant')
        return
    if dt <= 0:
        c.ieq(len(em), 0, 'nothing is visited before a throw')
    if c.throws_iff(o, dt <= 0, 'max_dt not positive'):
        return
    n = math.ceil(T / dt)
    c.ieq(len(em), n + 1, 'number of samples')
    for i, t in enumerate(em):
        c.eq(t, s + i * (e - s) / n, 'even spacing')
    c.holds(em[0] == s, 'first sample is exactly the start')
    c.holds(em[-1] == e, 'last sample is exactly the end')
