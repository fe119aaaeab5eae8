"""Identifiers."""
import z3
from .registry import Property

P = Property('C25', ['h_uuid.cc'])
DASH = (8, 13, 18, 23)


def u8(c, b):
    if isinstance(b, int):
        return b & 255
    return z3.If(b < 0, b + 256, b)


def ite(c, q, a, b):
    if c.symbolic:
        return z3.If(q, a, b)
    return a if q else b


def text(c, b):
    """canonical lower-case form"""
    out = []
    for x in b:
        x = u8(c, x)
        for nb in ((x // 16, x % 16) if isinstance(x, int) else (x / 16, x % 16)):
            if len(out) in DASH:
                out.append(45)
            out.append(ite(c, nb < 10, 48 + nb, 87 + nb))
    return out


@P.contract('construction keeps the bytes; equality, inequality and nullness compare all of them')
def compare(c):
    a, b = c.bytes('a'), c.bytes('b')
    if not c.symbolic and c.rng.random() < .3:
        b = list(a)
    o = c.call('h_uuid_cmp', b=a + b, nio=9, nbo=48)
    c.no_throw(o)
    same = c.beq(a, b)
    c.holds(c.Iff(o.io[0] == 1, same), 'equal exactly when all bytes are')
    c.holds(c.Iff(o.io[1] == 0, same), 'unequal exactly when some byte differs')
    c.holds(c.Iff(o.io[2] == 1, same), 'equality is symmetric')
    c.holds(c.Iff(o.io[3] == 1, c.isnull(a)), 'null exactly when all bytes are zero')
    c.holds(c.Iff(o.io[4] == 1, c.isnull(b)), 'null exactly when all bytes are zero (second)')
    c.ieq(o.io[5], 1, 'equality is reflexive')
    c.ieq(o.io[6], 1, 'a copy is equal')
    c.ieq(o.io[7], 1, 'an assigned copy is equal')
    c.holds(c.Iff(o.io[8] == 1, c.Not(same)), 'an assigned copy differs from the old value')
    for i in range(16):
        c.ieq(o.bo[i], a[i], 'byte %d kept' % i)
        c.ieq(o.bo[16 + i], b[i], 'byte %d kept (second)' % i)
        c.ieq(o.bo[32 + i], b[i], 'byte %d assigned' % i)


for _p in range(16):
    @P.contract('identifiers that differ in one byte only are unequal (byte %d)' % _p, name='differ[%d]' % _p)
    def differ(c, p=_p):
        a = c.bytes('a')
        b = list(a)
        b[p] = c.int('d', -128, 127)
        c.assume(b[p] != a[p])
        o = c.call('h_uuid_cmp', b=a + b, nio=9, nbo=48)
        c.no_throw(o)
        c.ieq(o.io[0], 0, 'not equal')
        c.ieq(o.io[1], 1, 'unequal')


@P.contract('default construction is null')
def null(c):
    o = c.call('h_uuid_null', b=[0] * 16, nio=2, nbo=16)
    c.no_throw(o)
    for i in range(16):
        c.ieq(o.bo[i], 0, 'byte %d' % i)
    c.ieq(o.io[0], 1, 'is_null')
    c.ieq(o.io[1], 1, 'equals the all-zero identifier')


@P.contract('formatting gives the canonical lower-case text, and parsing it gives the identifier back')
def round_trip(c):
    a = c.bytes('a')
    o = c.call('h_uuid_text', b=a, nio=2, nbo=52)
    c.no_throw(o)
    c.ieq(o.io[0], 36, 'length')
    for i, ch in enumerate(text(c, a)):
        c.ieq(o.bo[i], ch, 'character %d' % i)
    for i in range(16):
        c.ieq(o.bo[36 + i], a[i], 'byte %d' % i)
    c.ieq(o.io[1], 1, 'equal')


@P.contract('equal identifiers hash equally')
def hashing(c):
    a = c.bytes('a')
    b = list(a)
    o = c.call('h_uuid_hash', b=a + b, nio=1)
    c.no_throw(o)
    c.ieq(o.io[0], 1, 'hashes')


def hexval(c, ch):
    if c.symbolic:
        return z3.If(ch <= 57, ch - 48, z3.If(ch >= 97, ch - 87, ch - 55))
    return int(chr(ch), 16)


def ishex(c, ch):
    return c.Or(c.And(ch >= 48, ch <= 57), c.And(ch >= 97, ch <= 102), c.And(ch >= 65, ch <= 70))


def chars(c, n):
    """any text, NUL characters included; natively mostly near-canonical"""
    if c.symbolic:
        t = [c.int('c%d' % i, 0, 127) for i in range(n)]
        return t
    t = []
    for i in range(n):
        t.append(45 if i in DASH else c.rng.choice(b'0123456789abcdefABCDEF'))
    r = c.rng.random()
    if r < .6 and n:
        t[c.rng.randrange(n)] = c.rng.choice(b'-gG/:@`{ x0') if r < .4 else c.rng.randint(0, 127)
    if .6 <= r < .75 and n > 30:
        t[min(n - 1, c.rng.choice((32, 35, 36, 36, 37)))] = 0
    return [c.int('c%d' % i, 0, 127) if 'c%d' % i in c.preset else c.inputs.setdefault('c%d' % i, t[i]) for i in range(n)]


for _n in (0, 1, 32, 35, 36, 37, 38, 72):
    @P.contract('any text of %d characters is accepted exactly when it is well formed; its bytes are the ones written, its text form is its lower-case form' % _n,
                name='parse[%d]' % _n)
    def parse(c, n=_n):
        t = chars(c, n)
        o = c.call('h_uuid_parse', k=[n], b=t, nio=2, nbo=52)
        c.no_throw(o)
        if n != 36:
            c.ieq(o.io[0], 1, 'rejected')
            return
        ok = c.And(*[(t[i] == 45) if i in DASH else ishex(c, t[i]) for i in range(36)])
        c.holds(c.Iff(o.io[0] == 0, ok), 'accepted exactly when well formed')
        if c.branch(ok):
            h = [hexval(c, t[i]) for i in range(36) if i not in DASH]
            for i in range(16):
                v = 16 * h[2 * i] + h[2 * i + 1]
                c.ieq(o.bo[i], ite(c, v >= 128, v - 256, v), 'byte %d' % i)
            c.ieq(o.io[1], 36, 'length of the text form')
            for i in range(36):
                c.ieq(o.bo[16 + i], ite(c, (t[i] >= 65), ite(c, t[i] <= 70, t[i] + 32, t[i]), t[i]), 'character %d of the text form' % i)


@P.contract('a new identifier keeps the generated bytes, so it is not null and differs from the one before')
def fresh(c):
    o = c.call('h_uuid_new', nio=4)
    c.no_throw(o)
    c.ieq(o.io[2], 1, 'round trip through text')
    c.ieq(o.io[3], 1, 'equals the identifier made from its bytes')
    c.ieq(o.io[0], 0, 'two new identifiers differ')
    c.ieq(o.io[1], 0, 'a new identifier is not null')
