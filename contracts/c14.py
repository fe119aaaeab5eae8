"""Checked 64-bit integer arithmetic."""
from .registry import Property

P = Property('C14', ['h_time.cc'])
MAX, MIN = (1 << 63) - 1, -(1 << 63)
SPECIAL = (MAX, MIN, MAX - 1, MIN + 1, 0, 1, -1, 1 << 62, -(1 << 62))


def two(name, title, f):
    @P.contract(title, name=name)
    def g(c):
        a, b = c.int('a', special=SPECIAL), c.int('b', special=SPECIAL)
        o = c.call('h_' + name, k=[a, b], nio=1)
        want = f(a, b)
        if c.throws_iff(o, c.Or(want > MAX, want < MIN), 'result not representable'):
            return
        c.ieq(o.io[0], want, 'value')


two('safe_sum', 'safe_sum(a,b) is a+b, or throws exactly when a+b does not fit 64 bits', lambda a, b: a + b)
two('safe_difference', 'safe_difference(a,b) is a-b, or throws exactly when a-b does not fit 64 bits', lambda a, b: a - b)


@P.contract('safe_abs(a) is |a|, or throws exactly for the most negative integer')
def safe_abs(c):
    a = c.int('a', special=SPECIAL)
    o = c.call('h_safe_abs', k=[a], nio=1)
    if c.throws_iff(o, a == MIN, 'not representable'):
        return
    c.ieq(o.io[0], c.pick(a < 0, -a, a), 'value')
