"""Real-valued expressions.

R            hash-consed expression DAG (what the executor computes with)
normal form  polynomial over Q in `atoms` (variables, sqrt, inverse, sin, cos,
             ...), reduced by the square rules  sqrt(p)^2 -> p,
             sin^2 -> 1-cos^2, unit-vector/quaternion constraints.
             An identity is proved when the difference of the two sides,
             multiplied through by its (non-zero) denominators, reduces to 0.
Cond         boolean conditions over R and over z3 terms
"""
import math
from fractions import Fraction
import numpy as np
import z3

INF = float('inf')


class NormLimit(Exception):
    pass


class R:
    __slots__ = ('op', 'a', 'id', 'nf', '__weakref__')

    def __add__(s, o):
        return add(s, R_(o))

    __radd__ = __add__

    def __sub__(s, o):
        return sub(s, R_(o))

    def __rsub__(s, o):
        return sub(R_(o), s)

    def __mul__(s, o):
        return mul(s, R_(o))

    __rmul__ = __mul__

    def __truediv__(s, o):
        return div(s, R_(o))

    def __rtruediv__(s, o):
        return div(R_(o), s)

    def __neg__(s):
        return neg(s)

    def __pos__(s):
        return s

    def __pow__(s, n):
        r = ONE
        for _ in range(n):
            r = mul(r, s)
        return r

    def __lt__(s, o):
        return rc('lt', sub(s, R_(o)))

    def __le__(s, o):
        return rc('le', sub(s, R_(o)))

    def __gt__(s, o):
        return rc('gt', sub(s, R_(o)))

    def __ge__(s, o):
        return rc('ge', sub(s, R_(o)))

    def __repr__(s):
        return show(s)


_tab = {}
_n = [0]


def _mk(op, a):
    k = (op,) + tuple(x.id if isinstance(x, R) else x for x in a)
    r = _tab.get(k)
    if r is None:
        r = R.__new__(R)
        r.op = op
        r.a = a
        r.id = _n[0]
        r.nf = None
        _n[0] += 1
        _tab[k] = r
    return r


def const(v):
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            return _mk('special', (repr(v),))
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = v.numerator
    return _mk('c', (v,))


def R_(x):
    if type(x) is R:
        return x
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    if isinstance(x, z3.ArithRef):
        return toreal(x)
    raise TypeError('R_ ' + repr(x))


def var(name):
    return _mk('v', (name,))


_zi = {}


def toreal(z):
    if isinstance(z, int):
        return const(z)
    k = z.get_id()
    _zi[k] = z
    return _mk('i', (k,))


def is_c(x):
    return x.op == 'c'


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.a[0] + b.a[0])
        if a.a[0] == 0:
            return b
    elif b.op == 'c' and b.a[0] == 0:
        return a
    if a.op == 'special' or b.op == 'special':
        return _special('+', a, b)
    return _mk('+', (a, b))


def neg(a):
    if a.op == 'c':
        return const(-a.a[0])
    if a.op == 'neg':
        return a.a[0]
    if a.op == 'special':
        return const(-float(a.a[0]))
    return _mk('neg', (a,))


def sub(a, b):
    if a is b and a.op != 'special':
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'special' or b.op == 'special':
        return _special('*', a, b)
    if a.op == 'c':
        v = a.a[0]
        if b.op == 'c':
            return const(v * b.a[0])
        if v == 0:
            return ZERO
        if v == 1:
            return b
        if v == -1:
            return neg(b)
    elif b.op == 'c':
        v = b.a[0]
        if v == 0:
            return ZERO
        if v == 1:
            return a
        if v == -1:
            return neg(a)
    return _mk('*', (a, b))


def div(a, b):
    if a.op == 'special' or b.op == 'special':
        return _special('/', a, b)
    if b.op == 'c':
        if b.a[0] == 0:
            return _special('/', a, b)
        return mul(const(1 / Fraction(b.a[0])), a)
    if a.op == 'c' and a.a[0] == 0:
        return ZERO
    return _mk('/', (a, b))


class SpecialFloat(Exception):
    pass


def _special(op, a, b):
    def f(x):
        if x.op == 'c':
            return float(x.a[0])
        if x.op == 'special':
            return float(x.a[0])
        raise SpecialFloat('inf/nan arithmetic with symbolic operand')
    x, y = f(a), f(b)
    if op == '+':
        return const(x + y)
    if op == '*':
        return const(x * y)
    if y == 0:
        if x == 0 or x != x:
            return const(float('nan'))
        return const(math.copysign(INF, x))
    return const(x / y)


def fn(name, *args):
    args = tuple(R_(x) for x in args)
    if not args:
        return _mk('f', (name,))
    a0 = args[0]
    if a0.op == 'c':
        v = a0.a[0]
        if name == 'sqrt' and v >= 0:
            f = Fraction(v)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return const(Fraction(n, d))
        elif v == 0 and name in ('sin', 'tan', 'asin'):
            return ZERO
        elif v == 0 and name in ('cos', 'exp'):
            return ONE
        elif name == 'abs':
            return const(abs(v))
        elif name == 'floor':
            return const(math.floor(v))
        elif name == 'atan2' and v == 0 and args[1].op == 'c' and args[1].a[0] > 0:
            return ZERO
        elif name == 'log' and v == 1:
            return ZERO
    if name == 'abs' and a0.op == 'neg':
        a0 = a0.a[0]
        args = (a0,)
    return _mk('f', (name,) + args)


ZERO = const(0)
ONE = const(1)


def sqrt(x):
    return fn('sqrt', x) if isinstance(x, R) else math.sqrt(x)


def sin(x):
    return fn('sin', x) if isinstance(x, R) else math.sin(x)


def cos(x):
    return fn('cos', x) if isinstance(x, R) else math.cos(x)


def show(r, d=4):
    if r.op == 'c':
        v = r.a[0]
        return str(v) if isinstance(v, int) or v.denominator < 10000 else '%.9g' % float(v)
    if r.op in ('v', 'special'):
        return str(r.a[0])
    if r.op == 'i':
        return 'int(%s)' % _zi[r.a[0]]
    if d == 0:
        return '#%d' % r.id
    if r.op == 'neg':
        return '-' + show(r.a[0], d - 1)
    if r.op == 'f':
        return '%s(%s)' % (r.a[0], ', '.join(show(x, d - 1) for x in r.a[1:]))
    return '(%s%s%s)' % (show(r.a[0], d - 1), r.op, show(r.a[1], d - 1))


# ------------------------------------------------------------- normal form
class Atom:
    __slots__ = ('i', 'kind', 'name', 'args', 'rule', 'nonneg', 'z', 'poly', 'node', 'lo', 'hi')


NFLIMIT = 400000


class Algebra:
    """Atom table and polynomial arithmetic; one per contract run."""

    def __init__(self):
        self.atoms = []
        self.key = {}
        self.rulemask = 0
        self.invpairs = []
        self.memo = {}
        self.assumed_nonneg = set()
        self.principal = set()

    # -- atoms
    def atom(self, kind, name, args=(), node=None):
        k = (kind, name, args)
        a = self.key.get(k)
        if a is None:
            a = Atom()
            a.i = len(self.atoms)
            a.kind = kind
            a.name = name
            a.args = args
            a.rule = None
            a.nonneg = kind == 'fn' and name in ('sqrt', 'abs')
            a.z = None
            a.poly = None
            a.node = node
            a.lo = a.hi = None
            self.atoms.append(a)
            self.key[k] = a
        return a

    def set_rule(self, a, p):
        a.rule = p
        self.rulemask |= 0xFE << (8 * a.i)

    def vatom(self, r):
        assert r.op == 'v'
        return self.atom('var', r.a[0], (), r)

    def rule_sq(self, v, poly_expr):
        """declare v^2 == poly_expr (v a variable)."""
        self.set_rule(self.vatom(v), self.nf(poly_expr))

    def set_nonneg(self, v):
        self.vatom(v).nonneg = True

    # -- polynomials
    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > 4000000:
            raise NormLimit()
        r = {}
        get = r.get
        qi = list(q.items())
        for m1, c1 in p.items():
            for m2, c2 in qi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        return self.reduce(r)

    def reduce(self, r):
        mask = self.rulemask
        inv = self.invpairs
        todo = None
        out = {}
        for m, c in r.items():
            if c:
                if m & mask or (inv and self._hasinv(m)):
                    if todo is None:
                        todo = []
                    todo.append((m, c))
                else:
                    out[m] = c
        if todo is None:
            return out
        cnt = 0
        while todo:
            m, c = todo.pop()
            cnt += 1
            if cnt > NFLIMIT:
                raise NormLimit()
            x = m & mask
            if x:
                i = (x & -x).bit_length() - 1
                i //= 8
                p = self.atoms[i].rule
                base = m - (2 << (8 * i))
                for m2, c2 in p.items():
                    mm = base + m2
                    if mm & mask or (inv and self._hasinv(mm)):
                        todo.append((mm, c * c2))
                    else:
                        out[mm] = out.get(mm, 0) + c * c2
                continue
            if inv:
                mm = self._cancel(m)
                if mm != m:
                    todo.append((mm, c))
                    continue
            out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}

    def _hasinv(self, m):
        for ia, a in self.invpairs:
            if (m >> ia) & 255 and (m >> a) & 255:
                return True
        return False

    def _cancel(self, m):
        for ia, a in self.invpairs:
            e1 = (m >> ia) & 255
            e2 = (m >> a) & 255
            if e1 and e2:
                e = min(e1, e2)
                m -= (e << ia) + (e << a)
        return m

    @staticmethod
    def padd(p, q, k=1):
        if len(p) < len(q) and k == 1:
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def ppow(self, p, n):
        r = {0: 1}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def nf(self, r):
        if r.nf is not None and r.nf[0] is self:
            return r.nf[1]
        # iterative post-order to avoid deep recursion
        stack = [r]
        while stack:
            x = stack[-1]
            if x.nf is not None and x.nf[0] is self:
                stack.pop()
                continue
            pend = [y for y in x.a if isinstance(y, R) and not (y.nf is not None and y.nf[0] is self)]
            if pend:
                stack.extend(pend)
                continue
            x.nf = (self, self._nf1(x))
            stack.pop()
        return r.nf[1]

    def _nf1(self, x):
        op = x.op
        if op == 'c':
            v = x.a[0]
            return {0: v} if v else {}
        if op == '+':
            return self.padd(x.a[0].nf[1], x.a[1].nf[1])
        if op == 'neg':
            return {m: -c for m, c in x.a[0].nf[1].items()}
        if op == '*':
            return self.pmul(x.a[0].nf[1], x.a[1].nf[1])
        if op == '/':
            return self.pmul(x.a[0].nf[1], self.inv(x.a[1].nf[1]))
        if op == 'v':
            return {1 << (8 * self.vatom(x).i): 1}
        if op == 'i':
            return self._nfint(_zi[x.a[0]])
        if op == 'f':
            return self.func(x.a[0], [y.nf[1] for y in x.a[1:]], x)
        raise SpecialFloat('normal form of ' + op)

    def _nfint(self, z, depth=0):
        if z3.is_int_value(z):
            v = z.as_long()
            return {0: v} if v else {}
        if depth < 50:
            if z3.is_add(z):
                r = {}
                for ch in z.children():
                    r = self.padd(r, self._nfint(ch, depth + 1))
                return r
            if z3.is_sub(z):
                ch = z.children()
                r = self._nfint(ch[0], depth + 1)
                for c in ch[1:]:
                    r = self.padd(r, self._nfint(c, depth + 1), -1)
                return r
            if z3.is_mul(z):
                r = {0: 1}
                for ch in z.children():
                    r = self.pmul(r, self._nfint(ch, depth + 1))
                return r
            if z.decl().kind() == z3.Z3_OP_UMINUS:
                return {m: -c for m, c in self._nfint(z.arg(0), depth + 1).items()}
        _zi[z.get_id()] = z
        a = self.atom('int', z.get_id(), (), None)
        a.z = z3.ToReal(z)
        return {1 << (8 * a.i): 1}

    def inv(self, d):
        if not d:
            raise ZeroDivisionError('inverse of 0')
        if len(d) == 1:
            (m, c), = d.items()
            r = {0: 1 / Fraction(c)}
            i = 0
            while m:
                e = m & 255
                if e:
                    r = self.pmul(r, self.ppow({1 << (8 * self.invatom({1 << (8 * i): 1}).i): 1}, e))
                m >>= 8
                i += 1
            return r
        lead = max(d)
        c = d[lead]
        if c != 1:
            f = 1 / Fraction(c)
            d = {m: v * f for m, v in d.items()}
            return {1 << (8 * self.invatom(d).i): f}
        return {1 << (8 * self.invatom(d).i): 1}

    def invatom(self, d):
        k = frozenset(d.items())
        a = self.atom('inv', '', k)
        if a.poly is None:
            a.poly = d
            if len(d) == 1:
                (m, c), = d.items()
                i = (m.bit_length() - 1) // 8
                self.invpairs.append((8 * a.i, 8 * i))
                a.nonneg = self.atoms[i].nonneg
        return a

    def fnatom(self, name, polys, node):
        a = self.atom('fn', name, tuple(frozenset(p.items()) for p in polys))
        if a.poly is None:
            a.poly = polys
            a.node = node
        return a

    def func(self, name, ps, node):
        if name == 'sqrt':
            return self._sqrt(ps[0], node)
        if name in ('sin', 'cos'):
            s, c = self.sincos(ps[0], node)
            return s if name == 'sin' else c
        if name == 'abs':
            p = ps[0]
            if len(p) == 1:
                (m, c), = p.items()
                if self._mono_nonneg(m):
                    return {m: abs(c)} if c else {}
            if not p:
                return {}
            a = self.fnatom('abs', [p], node)
            if a.rule is None:
                a.rule = False
                self.set_rule(a, self.pmul(p, p))
            return {1 << (8 * a.i): 1}
        if name == 'pi':
            a = self.atom('fn', 'pi', ())
            a.nonneg = True
            return {1 << (8 * a.i): 1}
        if name == 'atan2':
            ps = [self.simp(p) for p in ps]
        if name == 'atan2' and len(ps[0]) == 1 and len(ps[1]) == 1:
            # atan2(k sin x, k cos x) = x for k > 0 and a principal x (declared in [0, pi])
            (my, cy), = ps[0].items()
            (mx, cx), = ps[1].items()
            if cy == cx and cy > 0:
                g = self._mgcd(my, mx)
                y, x = my - g, mx - g
                if self._mono_nonneg(g):
                    for arg in self.principal:
                        sn = self.key.get(('fn', 'sin', (arg,)))
                        cs = self.key.get(('fn', 'cos', (arg,)))
                        if sn and cs and y == 1 << (8 * sn.i) and x == 1 << (8 * cs.i):
                            return dict(arg)
        a = self.fnatom(name, ps, node)
        if name in ('exp', 'acos'):
            a.nonneg = True
        if name == 'atan2' and all(c > 0 and self._mono_nonneg(m) for m, c in ps[0].items()):
            a.nonneg = True
        return {1 << (8 * a.i): 1}

    def _mono_nonneg(self, m):
        i = 0
        while m:
            e = m & 255
            if e & 1 and not self.atoms[i].nonneg:
                return False
            m >>= 8
            i += 1
        return True

    def _qsqrt(self, c):
        f = Fraction(c)
        if f < 0:
            return None
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Fraction(n, d)
        return None

    @staticmethod
    def _pdiv(p, d):
        lead = max(d)
        lc = Fraction(d[lead])
        rem = dict(p)
        q = {}
        for _ in range(200):
            if not rem:
                return q
            l = max(rem)
            x, y = l, lead
            while y:
                if (x & 255) < (y & 255):
                    return None
                x >>= 8
                y >>= 8
            m = l - lead
            c = Fraction(rem[l]) / lc
            q[m] = c
            for m2, c2 in d.items():
                v = rem.get(m + m2, 0) - c * c2
                if v:
                    rem[m + m2] = v
                else:
                    rem.pop(m + m2, None)
        return None

    def sqrt_cases(self, p, depth=0):
        """If p == q^2 for a (rule-)monomial q return q's polynomial, else None."""
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            q = self._qsqrt(c)
            if q is None:
                return None
            h = 0
            i = 0
            while m:
                e = m & 255
                if e & 1:
                    return None
                h += (e // 2) << (8 * i)
                m >>= 8
                i += 1
            return {h: q}
        # content: common even monomial factor
        for a in self.atoms:
            if a.rule and len(a.rule) == len(p):
                m0, c0 = next(iter(a.rule.items()))
                if m0 in p:
                    k = Fraction(p[m0]) / Fraction(c0)
                    q = self._qsqrt(k)
                    if q and all(p.get(m) == c * k for m, c in a.rule.items()):
                        return {1 << (8 * a.i): q}
        # p = rule(a) * r  ->  sqrt(p) = |a| * sqrt(r)   (exact division in the free polynomial ring)
        if len(p) <= 60 and depth < 3:
            for a in self.atoms:
                if a.rule and 1 < len(a.rule) < len(p):
                    r = self._pdiv(p, a.rule)
                    if r is not None:
                        q = self.sqrt_cases(self.reduce(r), depth + 1)
                        if q is not None:
                            return self.pmul(q, {1 << (8 * a.i): 1})
        # strip common square monomial content
        g = None
        for m in p:
            g = m if g is None else self._mgcd(g, m)
            if not g:
                break
        if g:
            h = 0
            sq = 0
            i = 0
            mm = g
            while mm:
                e = mm & 255
                h += (e // 2) << (8 * i)
                sq += (e // 2 * 2) << (8 * i)
                mm >>= 8
                i += 1
            if h:
                rest = self.reduce({m - sq: c for m, c in p.items()})
                r = self.sqrt_cases(rest)
                if r is not None:
                    return self.pmul({h: 1}, r)
        return self._poly_square(p)

    def _poly_square(self, p):
        """Exact square root of a small multivariate polynomial (no rules), or None."""
        if len(p) > 40:
            return None
        rem = dict(p)
        q = {}
        lead = max(rem)
        c = self._qsqrt(rem[lead])
        if c is None:
            return None
        h = 0
        i = 0
        m = lead
        while m:
            e = m & 255
            if e & 1:
                return None
            h += (e // 2) << (8 * i)
            m >>= 8
            i += 1
        q[h] = c
        rem = self.padd(p, self.pmul(q, q), -1)
        for _ in range(30):
            if not rem:
                return q
            l = max(rem)
            m = l - h
            if m < 0:
                return None
            # check divisibility
            x, y = l, h
            while y:
                if (x & 255) < (y & 255):
                    return None
                x >>= 8
                y >>= 8
            if m in q:
                return None
            q[m] = Fraction(rem[l]) / (2 * c)
            rem = self.padd(p, self.pmul(q, q), -1)
            if rem and max(rem) >= l:
                return None
        return None

    @staticmethod
    def _mgcd(a, b):
        r = 0
        s = 0
        while a and b:
            r |= min(a & 255, b & 255) << s
            a >>= 8
            b >>= 8
            s += 8
        return r

    def _clear_square_inv(self, p):
        """p with its inv atoms to even powers pulled out: p = N * q^2, returns (N, q) or None."""
        q = {0: 1}
        n = p
        while True:
            top = None
            for m in n:
                i = 0
                x = m
                while x:
                    if x & 255 and self.atoms[i].kind == 'inv' and (top is None or i > top):
                        top = i
                    x >>= 8
                    i += 1
            if top is None:
                return n, q
            sh = 8 * top
            k = max((m >> sh) & 255 for m in n)
            k += k & 1
            d = self.atoms[top].poly
            r = {}
            pw = [{0: 1}]
            for _ in range(k):
                pw.append(self.pmul(pw[-1], d))
            for m, c in n.items():
                e = (m >> sh) & 255
                r = self.padd(r, self.pmul({m - (e << sh): c}, pw[k - e]))
            n = r
            q = self.pmul(q, {(k // 2) << sh: 1})

    def simp(self, p):
        """rule(a) * inv(a) -> a"""
        for ia, sa in self.invpairs:
            a = self.atoms[sa // 8]
            if not a.rule:
                continue
            g = {}
            rest = {}
            for m, c in p.items():
                if (m >> ia) & 255:
                    g[m - (1 << ia)] = c
                else:
                    rest[m] = c
            if len(g) < 2:
                continue
            r = self._pdiv(g, a.rule)
            if r is not None:
                p = self.padd(rest, self.pmul(r, {1 << sa: 1}))
        return p

    def _nonneg_poly(self, q):
        if all(c > 0 for c in q.values()) and all(self._mono_nonneg(m) for m in q):
            return True
        for a in self.atoms:
            if a.rule and len(a.rule) > 1 and len(a.rule) <= len(q):
                r = self._pdiv(q, a.rule)
                if r is not None and all(c > 0 for c in r.values()) and all(self._mono_nonneg(m) for m in r):
                    return True
        return False

    def _sqrt(self, p, node):
        q = self.sqrt_cases(p)
        if q is None:
            try:
                n, iq = self._clear_square_inv(p)
                if iq != {0: 1}:
                    r = self.sqrt_cases(n)
                    if r is not None:
                        if len(r) > 1 and self._nonneg_poly(r) and self._nonneg_poly(iq):
                            return self.simp(self.pmul(r, iq))
                        q = self.simp(self.pmul(r, iq))
            except NormLimit:
                pass
        if q is not None:
            if not q:
                return {}
            if len(q) == 1:
                (m, c), = q.items()
                if self._mono_nonneg(m):
                    return {m: abs(c)}
            if (all(c > 0 for c in q.values()) or all(c < 0 for c in q.values())) and \
                    all(self._mono_nonneg(m) for m in q):
                return {m: abs(c) for m, c in q.items()}
            # |q|
            if q[max(q)] < 0:
                q = {m: -c for m, c in q.items()}
            if len(q) == 1:
                # split |monomial| into product of |atom|
                (m, c), = q.items()
                r = {0: c}
                i = 0
                while m:
                    e = m & 255
                    if e:
                        if self.atoms[i].nonneg:
                            r = self.pmul(r, {e << (8 * i): 1})
                        else:
                            if e & 1:
                                r = self.pmul(r, self._abs_atom(i))
                                e -= 1
                            if e:
                                r = self.pmul(r, {e << (8 * i): 1})
                    m >>= 8
                    i += 1
                return r
            a = self.fnatom('abs', [q], None)
            if a.rule is None:
                a.rule = False
                self.set_rule(a, self.pmul(q, q))
            return {1 << (8 * a.i): 1}
        # canonical scale: factor a rational square out of the content
        a = self.fnatom('sqrt', [p], node)
        if a.rule is None:
            a.rule = False
            self.set_rule(a, p)
        return {1 << (8 * a.i): 1}

    def _abs_atom(self, i):
        at = self.atoms[i]
        q = {1 << (8 * i): 1}
        if at.kind == 'inv':
            # |1/d| = 1/|d|
            d = at.poly
            if len(d) == 1:
                (m, c), = d.items()
                j = (m.bit_length() - 1) // 8
                return self.inv(self._abs_atom(j)) if not self.atoms[j].nonneg else q
        a = self.fnatom('abs', [q], None)
        if a.rule is None:
            a.rule = False
            self.set_rule(a, self.pmul(q, q))
        return {1 << (8 * a.i): 1}

    # trigonometry: expand sin/cos of a sum of monomials
    def sincos(self, p, node):
        S, C = {}, {0: 1}
        for m in sorted(p):
            c = p[m]
            s1, c1 = self._sc_mono(m, c)
            S, C = (self.padd(self.pmul(S, c1), self.pmul(C, s1)),
                    self.padd(self.pmul(C, c1), self.pmul(S, s1), -1))
        return S, C

    def _sc_mono(self, m, c):
        pi = self.key.get(('fn', 'pi', ()))
        if pi is not None and m == 1 << (8 * pi.i) and (Fraction(c) * 2).denominator == 1:
            k = int(Fraction(c) * 2) % 4
            s, co = [(0, 1), (1, 0), (0, -1), (-1, 0)][k]
            return ({0: s} if s else {}), ({0: co} if co else {})
        neg_ = c < 0
        c = abs(c)
        f = Fraction(c)
        base = Fraction(1, f.denominator)
        k = f.numerator
        if k > 12:
            base = f
            k = 1
        s1, c1 = self._sc_base(m, base)
        # Chebyshev by repeated addition
        S, C = {}, {0: 1}
        for _ in range(k):
            S, C = (self.padd(self.pmul(S, c1), self.pmul(C, s1)),
                    self.padd(self.pmul(C, c1), self.pmul(S, s1), -1))
        if neg_:
            S = {mm: -v for mm, v in S.items()}
        return S, C

    def _sc_base(self, m, q):
        if q == 1 and m and (m & (m - 1)) == 0:
            i = (m.bit_length() - 1)
            if i % 8 == 0:
                at = self.atoms[i // 8]
                if at.kind == 'fn' and at.name == 'atan2':
                    y, x = at.poly
                    h = self._sqrt(self.padd(self.pmul(x, x), self.pmul(y, y)), None)
                    ih = self.inv(h)
                    return self.pmul(y, ih), self.pmul(x, ih)
                if at.kind == 'fn' and at.name == 'acos':
                    x = at.poly[0]
                    return self._sqrt(self.padd({0: 1}, self.pmul(x, x), -1), None), x
                if at.kind == 'fn' and at.name == 'asin':
                    x = at.poly[0]
                    return x, self._sqrt(self.padd({0: 1}, self.pmul(x, x), -1), None)
        p = {m: q}
        cs = self.fnatom('cos', [p], None)
        sn = self.fnatom('sin', [p], None)
        if sn.rule is None:
            self.set_rule(sn, {0: 1, 2 << (8 * cs.i): -1})
        return {1 << (8 * sn.i): 1}, {1 << (8 * cs.i): 1}

    # -- decision
    def subst(self, p, subs):
        """substitute atoms (dict atom index -> poly)."""
        for i, q in subs.items():
            sh = 8 * i
            if not any((m >> sh) & 255 for m in p):
                continue
            r = {}
            pw = {0: {0: 1}}
            for m, c in p.items():
                e = (m >> sh) & 255
                if not e:
                    r[m] = r.get(m, 0) + c
                    continue
                if e not in pw:
                    pw[e] = self.ppow(q, e)
                for m2, c2 in self.pmul({m - (e << sh): c}, pw[e]).items():
                    r[m2] = r.get(m2, 0) + c2
            p = {m: c for m, c in r.items() if c}
        return p

    def clear(self, p):
        """Multiply through by all denominators."""
        while True:
            top = None
            for m in p:
                i = 0
                x = m
                while x:
                    if x & 255 and self.atoms[i].kind == 'inv':
                        if top is None or i > top:
                            top = i
                    x >>= 8
                    i += 1
            if top is None:
                return p
            sh = 8 * top
            d = self.atoms[top].poly
            k = max((m >> sh) & 255 for m in p)
            groups = {}
            for m, c in p.items():
                e = (m >> sh) & 255
                groups.setdefault(e, {})[m - (e << sh)] = c
            r = {}
            pw = [{0: 1}]
            for _ in range(k):
                pw.append(self.pmul(pw[-1], d))
            for e, g in groups.items():
                r = self.padd(r, self.pmul(g, pw[k - e]))
            p = r
            if len(p) > NFLIMIT:
                raise NormLimit()

    def is_zero(self, r, subs=None):
        p = self.nf(r)
        return self.poly_zero(p, subs)

    def poly_zero(self, p, subs=None):
        if not p:
            return True
        if subs:
            p = self.subst(p, subs)
            if not p:
                return True
        p = self.clear(p)
        if not p:
            return True
        if subs:
            p = self.clear(self.subst(p, subs))
        return not p

    # -- z3
    def z3atom(self, i, side):
        a = self.atoms[i]
        if a.z is None:
            if a.kind == 'var':
                a.z = z3.Real('r!' + a.name)
            else:
                a.z = z3.Real('a!%d!%s' % (i, a.name))
        side.add(i)
        return a.z

    def z3poly(self, p, side):
        ts = []
        for m, c in p.items():
            fs = []
            i = 0
            while m:
                e = m & 255
                if e:
                    z = self.z3atom(i, side)
                    fs.extend([z] * e)
                m >>= 8
                i += 1
            f = Fraction(c)
            cz = z3.RealVal(str(f.numerator) + ('/' + str(f.denominator) if f.denominator != 1 else ''))
            if fs:
                t = fs[0]
                for x in fs[1:]:
                    t = t * x
                if f != 1:
                    t = cz * t
            else:
                t = cz
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def side_constraints(self, side):
        out = []
        done = set()
        todo = list(side)
        pi_lo, pi_hi = z3.Q(314159265358979, 10**14), z3.Q(314159265358980, 10**14)
        while todo:
            i = todo.pop()
            if i in done:
                continue
            done.add(i)
            a = self.atoms[i]
            z = self.z3atom(i, set())
            s = set()
            if a.kind == 'inv':
                out.append(z * self.z3poly(a.poly, s) == 1)
            elif a.kind == 'fn':
                if a.name in ('sqrt', 'abs'):
                    q = self.z3poly(a.poly[0], s)
                    out.append(z >= 0)
                    if a.name == 'sqrt':
                        out.append(z * z == q)
                    else:
                        out.append(z3.Or(z == q, z == -q))
                elif a.name in ('sin', 'cos'):
                    sn = self.key.get(('fn', 'sin', a.args))
                    cs = self.key.get(('fn', 'cos', a.args))
                    zs, zc = self.z3atom(sn.i, s), self.z3atom(cs.i, s)
                    x = self.z3poly(a.poly[0], s)
                    out.append(zs * zs + zc * zc == 1)
                    out.append(z3.And(zs <= 1, zs >= -1, zc <= 1, zc >= -1))
                    out.append(z3.Implies(z3.And(x > 0, x <= pi_lo), zs > 0))
                    out.append(z3.Implies(z3.And(x > 0, x <= 2 * pi_lo), zc < 1))
                    out.append(z3.Implies(x == 0, z3.And(zs == 0, zc == 1)))
                    out.append(z3.Implies(x >= 0, z3.And(zs <= x, 1 - zc <= x * x / 2)))
                elif a.name == 'atan2':
                    y, x = self.z3poly(a.poly[0], s), self.z3poly(a.poly[1], s)
                    out.append(z3.And(z <= pi_hi, z >= -pi_hi))
                    out.append(z3.Implies(y >= 0, z >= 0))
                    out.append(z3.Implies(z3.And(y >= 0, x >= 0), z <= pi_hi / 2))
                    out.append(z3.Implies(z3.And(y == 0, x > 0), z == 0))
                    out.append(z3.Implies(y > 0, z > 0))
                elif a.name == 'pi':
                    out.append(z3.And(z > pi_lo, z < pi_hi))
                elif a.name == 'exp':
                    out.append(z > 0)
                elif a.name == 'floor':
                    q = self.z3poly(a.poly[0], s)
                    out.append(z3.And(z <= q, q < z + 1))
            if a.rule and a.kind == 'var':
                out.append(z * z == self.z3poly(a.rule, s))
            if a.nonneg:
                out.append(z >= 0)
            if a.lo is not None:
                out.append(z >= a.lo)
            if a.hi is not None:
                out.append(z <= a.hi)
            todo.extend(s)
        return out

    def is_soft(self, side):
        """does the z3 encoding leave some of these atoms (or what they depend on) under-specified?"""
        todo, seen = list(side), set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            a = self.atoms[i]
            if a.kind == 'fn' and a.name not in ('sqrt', 'abs'):
                return True
            ps = a.poly if a.kind == 'fn' else [a.poly] if a.kind == 'inv' else []
            for p in ps or []:
                for m in p:
                    j = 0
                    while m:
                        if m & 255:
                            todo.append(j)
                        m >>= 8
                        j += 1
        return False

    def z3real(self, r, side):
        return self.z3poly(self.nf(r), side)


# ------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('k', 'op', 'x')

    def __init__(self, k, op, x):
        self.k = k
        self.op = op
        self.x = x

    def __and__(s, o):
        return c_and(s, o)

    def __or__(s, o):
        return c_or(s, o)

    def __invert__(s):
        return c_not(s)

    def __bool__(s):
        raise TypeError('symbolic condition used as bool')

    def __repr__(s):
        if s.k == 'r':
            return '(%s %s 0)' % (show(s.x), s.op)
        if s.k == 'z':
            return str(s.x)
        if s.k == 'not':
            return '!' + repr(s.x)
        return '(' + (' %s ' % s.k).join(map(repr, s.x)) + ')'


OPNEG = {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}
OPF = {'lt': lambda v: v < 0, 'le': lambda v: v <= 0, 'gt': lambda v: v > 0, 'ge': lambda v: v >= 0,
       'eq': lambda v: v == 0, 'ne': lambda v: v != 0}


def rc(op, r):
    if r.op == 'c':
        return OPF[op](r.a[0])
    if r.op == 'special':
        return OPF[op](float(r.a[0]))
    return Cond('r', op, r)


def zc(b):
    if isinstance(b, (bool, Cond)):
        return b
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return Cond('z', None, b)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.k == 'r':
        return Cond('r', OPNEG[c.op], c.x)
    if c.k == 'z':
        return zc(z3.simplify(z3.Not(c.x)))
    if c.k == 'not':
        return c.x
    if c.k == 'and':
        return c_or(*[c_not(x) for x in c.x])
    return c_and(*[c_not(x) for x in c.x])


def c_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, z3.BoolRef):
            c = zc(c)
        if c is True:
            continue
        if c is False:
            return False
        if c.k == 'and':
            out.extend(c.x)
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond('and', None, out)


def c_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, z3.BoolRef):
            c = zc(c)
        if c is False:
            continue
        if c is True:
            return True
        if c.k == 'or':
            out.extend(c.x)
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond('or', None, out)


def c_z3(c, alg, side):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if c.k == 'z':
        return c.x
    if c.k == 'r':
        z = alg.z3real(c.x, side)
        return {'lt': lambda: z < 0, 'le': lambda: z <= 0, 'gt': lambda: z > 0, 'ge': lambda: z >= 0,
                'eq': lambda: z == 0, 'ne': lambda: z != 0}[c.op]()
    if c.k == 'not':
        return z3.Not(c_z3(c.x, alg, side))
    f = z3.And if c.k == 'and' else z3.Or
    return f([c_z3(x, alg, side) for x in c.x])


# ------------------------------------------------------------- numerics
class NoNum(Exception):
    pass


_NPF = {'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'atan2': np.arctan2, 'acos': np.arccos,
        'asin': np.arcsin, 'abs': np.abs, 'floor': np.floor, 'exp': np.exp, 'log': np.log, 'atan': np.arctan}


def _pi(*a):
    return math.pi


_NPF['pi'] = lambda *a: np.pi


class Num:
    """Vectorised double evaluation over a batch of samples."""

    def __init__(self, env, user=None):
        self.env = env
        self.memo = {}
        self.user = user or {}

    def ev(self, r):
        memo = self.memo
        if r.id in memo:
            return memo[r.id]
        stack = [r]
        with np.errstate(all='ignore'):
            while stack:
                x = stack[-1]
                if x.id in memo:
                    stack.pop()
                    continue
                pend = [y for y in x.a if isinstance(y, R) and y.id not in memo]
                if pend:
                    stack.extend(pend)
                    continue
                memo[x.id] = self._1(x)
                stack.pop()
        return memo[r.id]

    def _1(self, x):
        op = x.op
        m = self.memo
        if op == 'c':
            return float(x.a[0])
        if op == '+':
            return m[x.a[0].id] + m[x.a[1].id]
        if op == '*':
            return m[x.a[0].id] * m[x.a[1].id]
        if op == 'neg':
            return -m[x.a[0].id]
        if op == '/':
            return np.divide(m[x.a[0].id], m[x.a[1].id])
        if op == 'v':
            if x.a[0] not in self.env:
                raise NoNum(x.a[0])
            return self.env[x.a[0]]
        if op == 'f':
            f = self.user.get(x.a[0]) or _NPF.get(x.a[0])
            if f is None:
                raise NoNum(x.a[0])
            return f(*[m[y.id] for y in x.a[1:]])
        if op == 'special':
            return float(x.a[0])
        raise NoNum(op)

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if c.k == 'r':
            return OPF[c.op](self.ev(c.x))
        if c.k == 'z':
            raise NoNum('z3')
        if c.k == 'not':
            return np.logical_not(self.cond(c.x))
        vs = [self.cond(x) for x in c.x]
        r = vs[0]
        for v in vs[1:]:
            r = np.logical_and(r, v) if c.k == 'and' else np.logical_or(r, v)
        return r


def ev_mp(r, env, mp, user=None, memo=None):
    """High-precision evaluation at one sample (env: name -> mpf/Fraction)."""
    memo = {} if memo is None else memo
    stack = [r]
    user = user or {}
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        pend = [y for y in x.a if isinstance(y, R) and y.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        op = x.op
        a = [memo[y.id] if isinstance(y, R) else y for y in x.a]
        if op == 'c':
            f = Fraction(a[0])
            v = mp.mpf(f.numerator) / f.denominator
        elif op == '+':
            v = a[0] + a[1]
        elif op == '*':
            v = a[0] * a[1]
        elif op == 'neg':
            v = -a[0]
        elif op == '/':
            v = a[0] / a[1]
        elif op == 'v':
            if a[0] not in env:
                raise NoNum(a[0])
            v = env[a[0]]
        elif op == 'f':
            n = a[0]
            if n in user:
                v = user[n](*a[1:])
            elif n == 'abs':
                v = abs(a[1])
            elif n == 'pi':
                v = mp.pi
            elif n == 'floor':
                v = mp.floor(a[1])
            else:
                v = getattr(mp, n)(*a[1:])
        else:
            raise NoNum(op)
        memo[x.id] = v
        stack.pop()
    return memo[r.id]
