"""Sequences of arbitrary length.

A vector of a real object is given storage of symbolic length: an element exists only once it is accessed, at a symbolic
index; it is then built by the harness from the ghost sequence the contract quantifies over (the data-structure
invariant is instantiated for it and for its relation to the elements met before)."""
import z3
from irv import ir
from irv.engine import Ptr, Unsupported, CxxThrow
from irv.reals import zc, Cond

I64 = ir.IntTy(64)


def simp(i):
    if isinstance(i, int):
        return i
    i = z3.simplify(i)
    return i.as_long() if z3.is_int_value(i) else i


def split(off, stride):
    """byte offset -> (element index, offset in the element); coefficients of the index are multiples of the stride"""
    if isinstance(off, int):
        return off // stride, off % stride
    off = z3.simplify(off, som=True)
    terms = list(off.children()) if z3.is_add(off) else [off]
    idx, c = 0, 0
    for t in terms:
        if z3.is_int_value(t):
            c += t.as_long()
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % stride == 0:
            r = t.arg(1) if t.num_args() == 2 else z3.Product(t.children()[1:])
            idx = idx + (t.arg(0).as_long() // stride) * r
        else:
            raise Unsupported('offset %s into a sequence of %d-byte elements' % (off, stride))
    return simp(idx + c // stride), c % stride


class Index:
    """symbolic indices met so far; equal ones are identified by case split"""

    def __init__(self, c):
        self.c, self.known, self.memo = c, [], {}

    def find(self, i):
        i = simp(i)
        k = i if isinstance(i, int) else ('z', i.get_id())
        m = self.memo.get(k)
        if m is not None:
            return m[1]
        v = self.search(i)
        if v is not None:
            self.memo[k] = (i, v)
        return v

    def search(self, i):
        for j, v in self.known:
            if isinstance(i, int) and isinstance(j, int):
                if i == j:
                    return v
                continue
            e = z3.simplify(i == j)
            if z3.is_false(e):
                continue
            if z3.is_true(e) or self.c.choose(zc(e)):
                return v
        return None


class Seq:
    """ghost sequence: at(i) is the i-th element; rel(x, y) states the invariant between an element and a later one"""

    def __init__(self, c, n, mk, rel=None):
        self.c, self.n, self.mk, self.rel = c, n, mk, rel
        self.ix = Index(c)

    def at(self, i):
        v = self.ix.find(i)
        if v is None:
            c, i = self.c, simp(i)
            c.holds(zc(z3.And(i >= 0, i < self.n)) if not (isinstance(i, int) and isinstance(self.n, int)) else 0 <= i < self.n, 'index in range')
            v = self.mk(len(self.ix.known), i)
            for j, w in list(self.ix.known):
                if self.rel:
                    lt = (i < j) if isinstance(i, int) and isinstance(j, int) else c.choose(zc(i < j))
                    self.rel(v, w) if lt else self.rel(w, v)
            self.ix.known.append((i, v))
        return v


class SymArr:
    """storage of `cap` elements, the first n of which exist; build(E, obj, i) constructs element i in place"""

    def __init__(self, E, n, cap, stride, build, name):
        self.n, self.cap, self.stride, self.build = n, cap, stride, build
        self.ix = Index(E.ctx)
        self.obj = E.new_obj(stride, 'symarr', name)
        self.obj.kind = 'symarr'
        self.obj.size = stride * cap
        self.obj.data = self

    def element(self, E, i, what):
        o = self.ix.find(i)
        if o is None:
            c = E.ctx
            Z = lambda b: b if isinstance(b, bool) else zc(b)
            c.oblige(Z(z3.And(i >= 0, i < self.cap)) if not (isinstance(i, int) and isinstance(self.cap, int)) else 0 <= i < self.cap, 'bounds',
                     '%s of element %s of %s' % (what, i, self.obj.name), assume=True)
            o = E.new_obj(self.stride, 'heap', '%s[%d]' % (self.obj.name, len(self.ix.known)))
            self.ix.known.append((simp(i), o))
            if c.choose(Z(i < self.n)):
                self.build(E, Ptr(o, 0), i)
        return o

    def where(self, E, p, size, what):
        i, c = split(p.off, self.stride)
        if c + size > self.stride:
            raise Unsupported('access across elements of ' + self.obj.name)
        return Ptr(self.element(E, i, what), c)

    def load(self, E, p, ty):
        return E.load(self.where(E, p, ty.size, 'load'), ty)

    def store(self, E, p, ty, v):
        return E.store(v, self.where(E, p, ty.size, 'store'), ty)

    def memcpy_from(self, E, d, s, n):
        if not isinstance(n, int):
            raise Unsupported('copy of a sequence')
        return E.memcpy(d, self.where(E, s, n, 'copy'), n)

    def memcpy_to(self, E, d, s, n):
        if not isinstance(n, int):
            raise Unsupported('copy of a sequence')
        return E.memcpy(self.where(E, d, n, 'copy'), s, n)

    def ptr(self, i):
        return Ptr(self.obj, simp(self.stride * i))


def give(E, vec, arr):
    """the std::vector at vec gets this storage (start, finish, end of storage)"""
    for k, i in enumerate((0, arr.n, arr.cap)):
        E.store(arr.ptr(i), Ptr(vec.obj, vec.off + 8 * k), ir.PTR)


def size_of(E, vec):
    a, b = (E.load(Ptr(vec.obj, vec.off + 8 * k), ir.PTR) for k in (0, 1))
    return a, b


def search(kind):
    """Contract of a standard search over a random-access range (C++ standard): the result is the first position whose
    element fails / satisfies the predicate.  The predicate is evaluated by running the real body on a range of one
    element.  kind: 'partition' (lower_bound and relatives; the range must be partitioned, which is an obligation at two arbitrary
    positions) or 'first' (find_if)"""
    def f(E, args, name):
        a, b = args[0], args[1]
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None and a.obj.kind == 'symarr'):
            return E.run(E.mod.funcs[name], args)
        c, arr = E.ctx, a.obj.data
        i0, r0 = split(a.off, arr.stride)
        i1, r1 = split(b.off, arr.stride)
        if r0 or r1:
            raise Unsupported('search bounds')
        c.note_assumed('std search algorithms (lower_bound, upper_bound, find_if) over a long range return the position the C++ standard defines')

        def hit(i):
            """does the search stop at element i?"""
            r = E.run(E.mod.funcs[name], [arr.ptr(i), arr.ptr(i + 1)] + list(args[2:]))
            return c.choose(E.pcmp('eq', r, arr.ptr(i)))
        if kind == 'partition':
            save = len(c.pc)
            x, y = c.fresh_int('x'), c.fresh_int('y')
            if c.choose(zc(c.fresh_int('which') == 0)):
                c.assume(z3.And(i0 <= x, x < y, y < i1))
                if hit(x):
                    c.holds(hit(y), 'the range searched is partitioned')
                from irv.engine import PathEnd
                raise PathEnd('partition')
        r = c.fresh_int('found')
        c.assume(z3.And(r >= i0, r <= i1))
        if c.choose(zc(r > i0)):
            if hit(simp(r - 1)):
                from irv.engine import PathEnd
                raise PathEnd('infeasible')
        if c.choose(zc(r < i1)):
            if not hit(r):
                from irv.engine import PathEnd
                raise PathEnd('infeasible')
        return arr.ptr(r)
    return f


def search_overrides():
    import re
    return [(re.compile(r'(?:[^()]*\s)?std::(lower_bound|upper_bound|partition_point)<'), search('partition')),
            (re.compile(r'(?:[^()]*\s)?std::(find_if|find_if_not)<'), search('first'))]
