"""Time representation conversions."""
from fractions import Fraction
from .registry import Property
from .c14 import MAX, MIN, SPECIAL

P = Property('C18', ['h_time.cc'])
NS = 10 ** 9
U = Fraction(1, 1 << 53)
# whole seconds and their neighbours at growing magnitudes
BIG = tuple(z * s * NS + d for z in (1, -1) for s in (1 << 20, 1 << 24, 10 ** 8, 5 * 10 ** 9, 9223372036) for d in (1, -1, 0))


@P.contract('as_seconds(d) is the number of nanoseconds divided by 10^9, to within two roundings', rounding=True)
def as_seconds(c):
    k = c.int('k', special=SPECIAL + (NS, -NS, NS - 1, 15))
    o = c.call('h_as_seconds', k=[k], no=1)
    c.no_throw(o)
    x, e = o.o[0], (c.toreal(k) / NS if c.symbolic else Fraction(k, NS))
    if not c.symbolic:
        x = Fraction(x)
    ae = c.pick(k >= 0, e, -e)
    d = x - e
    c.holds(c.And(d <= ae * (3 * U), d >= -(ae * (3 * U))), 'value')


@P.contract('as_seconds(d) is exactly d/10^9 s in real arithmetic')
def as_seconds_exact(c):
    k = c.int('k', special=SPECIAL + (NS, -NS, NS - 1, 15))
    o = c.call('h_as_seconds', k=[k], no=1)
    c.no_throw(o)
    c.eq(o.o[0], c.toreal(k) / NS if c.symbolic else k / NS, 'value')


@P.contract('as_duration(t) is a nearest nanosecond to t (real arithmetic)')
def as_duration(c):
    x = c.real('x', -1e6, 1e6, special=(0.0, 1e-9, 15e-9, 0.5e-9, 1.5e-9, -0.5e-9, 1.0, -1.0, 1e-3))
    c.assume(c.And(x <= 9e9, x >= -9e9))
    o = c.call('h_as_duration', x=[x], nio=1)
    c.no_throw(o)
    if c.symbolic:
        d = c.toreal(o.io[0]) - x * NS
        c.holds(c.And(d <= Fraction(1, 2), d >= -Fraction(1, 2)), 'nearest')
    else:
        d = abs(o.io[0] - Fraction(x) * NS)
        c.holds(d <= Fraction(1, 2) + abs(Fraction(x)) * NS * 4 * U, 'nearest')


@P.contract('as_duration(as_seconds(d)) == d for every duration of magnitude below 2^50 ns, with floating-point rounding',
            rounding=True)
def seconds_round_trip(c):
    k = c.int('k', -(1 << 50), 1 << 50, special=(0, 1, -1, 15, -15, NS, NS + 1, -NS, -NS - 1, 1 << 50, -(1 << 50), (1 << 50) - 1))
    o = c.call('h_seconds_round_trip', k=[k], nio=1)
    c.no_throw(o)
    c.ieq(o.io[0], k, 'round trip')


@P.contract('to_seconds_and_nanos splits d into whole seconds and nanos with d = secs*10^9 + nanos, |nanos| < 10^9, signs agreeing; '
            'from_seconds_and_nanos inverts it', rounding=True)
def to_secs_nanos(c):
    k = c.int('k', special=SPECIAL + (NS, -NS, NS - 1, 1 - NS, NS + 1, 15) + BIG)
    o = c.call('h_to_sn', k=[k], nio=3)
    c.no_throw(o)
    s, n, back = o.io[:3]
    c.ieq(s * NS + n, k, 'sum')
    c.holds(c.And(n < NS, n > -NS), 'nanos below one second')
    c.holds(c.Or(c.And(s >= 0, n >= 0), c.And(s <= 0, n <= 0)), 'signs agree')
    c.ieq(back, k, 'round trip')


@P.contract('from_seconds_and_nanos(s, n) is s*10^9 + n whenever that fits 64 bits', rounding=True)
def from_secs_nanos(c):
    s = c.int('s', special=(0, 1, -1, 9223372036, -9223372036, 1 << 32, 9007200, 123456789, -987654321))
    n = c.int('n', -(1 << 31), (1 << 31) - 1, special=(0, 1, -1, NS - 1, -NS, (1 << 31) - 1, -(1 << 31)))
    c.assume(c.And(s * NS <= MAX, s * NS >= MIN, s * NS + n <= MAX, s * NS + n >= MIN))
    o = c.call('h_from_sn', k=[s, n], nio=1)
    c.no_throw(o)
    c.ieq(o.io[0], s * NS + n, 'value')
