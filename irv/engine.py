"""Symbolic executor for LLVM IR (path replay: every path re-executes the
contract from its start with a prefix of recorded branch decisions)."""
import re
import sys
from fractions import Fraction
import z3
from . import ir
from .ir import CGlobal, CExpr, CZero, CUndef, CBytes, CAgg, CReg, CUNDEF
from . import reals as RL
from .reals import R, Cond, rc, zc, c_not, c_and, c_or

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """Path cut off (assumption false / obligation failed / abort)."""


class CxxThrow(Exception):
    def __init__(self, ptr, ti, info=None):
        self.ptr = ptr
        self.ti = ti
        self.info = info


class Abort(Exception):
    """std::terminate / abort / assert failure reached."""

    def __init__(self, why):
        self.why = why


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Obj:
    __slots__ = ('id', 'size', 'cells', 'alive', 'kind', 'name', 'irregular', 'const', 'data', 'lazy')

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Watch:
    """Liveness of an object whose every access is reported (falsy, so that accesses take the checked path)."""

    def __init__(self, hit):
        self.hit = hit

    def __bool__(self):
        return False


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'ptr(%r+%s)' % (self.obj, self.off)


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn(%s)' % self.name


class BitsOf:
    """integer view of a real (double) value"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


class BI:
    """integer 0/1 view of a condition"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Cat:
    """little-endian concatenation of (value,size,first,n): bytes first..first+n of a size-byte value"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class SymStr:
    """opaque immutable ghost value held in a cell"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


LO = {b: -(1 << (b - 1)) for b in (8, 16, 32, 64, 128, 1, 2, 4, 24, 40, 48, 56, 9, 65, 33)}
HI = {b: (1 << (b - 1)) - 1 for b in LO}


def lo(b):
    return -(1 << (b - 1))


def hi(b):
    return (1 << (b - 1)) - 1


def wrapc(v, b):
    v &= (1 << b) - 1
    if v >> (b - 1):
        v -= 1 << b
    return v


STATIC = re.compile('_ZZ*NK?5resim')


class Engine:
    def __init__(self, mod, ctx, models):
        self.mod = mod
        self.ctx = ctx
        self.models = models
        self.overrides = []
        self._ov = {}
        self.reset()

    # ------------------------------------------------------------ state
    def reset(self):
        self.nobj = 0
        self.gobjs = {}
        self.gwrites = set()
        self.fuel = 30_000_000
        self.depth = 0
        self.caught = []
        self.last_exc = None
        self.ghost = {}
        self.hexof = {}      # character terms known to be hexadecimal digits of a byte
        self.stack = []
        self.tracked = None

    def new_obj(self, size, kind, name):
        o = Obj()
        o.id = self.nobj
        self.nobj += 1
        o.size = size
        o.cells = {}
        o.alive = True
        o.kind = kind
        o.name = name
        o.irregular = False
        o.const = False
        o.data = None
        o.lazy = None
        if self.tracked is not None:
            self.tracked.append(o)
        return o

    def gc_track(self):
        self.tracked = [o for o in self.tracked if o.alive]

    def kill_cell(self, o, off):
        o.cells[off] = (o.cells[off][0], UNDEF)

    def ub(self, kind, msg):
        """Unconditional definedness failure on this path."""
        self.ctx.oblige(False, kind, msg + self.where())
        raise PathEnd(kind)

    def where(self):
        s = [f for f in self.stack if not f.startswith(('Eigen::', 'std::', '__gnu'))]
        return ' in ' + (s[-1].split('(')[0] if s else '?')

    # ------------------------------------------------------------ globals
    def gptr(self, name):
        p = self.gobjs.get(name)
        if p is not None:
            return p
        if name in self.mod.funcs:
            p = FnPtr(name)
            self.gobjs[name] = p
            return p
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported('global ' + name)
        self.mod.resolve_global(g)
        if g.alias is not None:
            p = self.cval(g.alias, ir.PTR)
            self.gobjs[name] = p
            return p
        self.mod.layout(g.ty)
        o = self.new_obj(g.ty.size, 'global', name)
        p = Ptr(o, 0)
        self.gobjs[name] = p
        if g.external:
            o.kind = 'extern'
            o.size = 1 << 20
        else:
            self.init_mem(o, 0, g.ty, g.init_toks)
            o.const = g.const
        return p

    def init_mem(self, o, off, ty, c):
        m = self.mod
        m.layout(ty)
        if isinstance(c, CZero):
            if ty.k == 'struct':
                self.fill(o, off, ty.size, 0)
            elif ty.k in ('arr', 'vec'):
                self.fill(o, off, ty.size, 0)
            else:
                self.rawstore(o, off, ty, self.cval(c, ty))
            return
        if isinstance(c, CUndef):
            return
        if isinstance(c, CBytes):
            for i, b in enumerate(c.b):
                self.put(o, off + i, 1, b if b < 128 else b - 256)
            return
        if isinstance(c, CAgg):
            if ty.k in ('arr', 'vec'):
                for i, (t, x) in enumerate(c.elts):
                    self.init_mem(o, off + i * ty.elt.size, ty.elt, x)
            else:
                for i, (t, x) in enumerate(c.elts):
                    self.init_mem(o, off + ty.offs[i], t, x)
            return
        self.rawstore(o, off, ty, self.cval(c, ty))

    def cval(self, c, ty):
        """value of a constant"""
        if isinstance(c, (bool, int)):
            return c
        if isinstance(c, tuple) and c[0] == 'fp':
            return RL.const(c[1])
        if isinstance(c, CGlobal):
            return self.gptr(c.name)
        if isinstance(c, CZero):
            k = ty.k
            if k == 'ptr':
                return NULL
            if k == 'int':
                return False if ty.bits == 1 else 0
            if k in ('double', 'float', 'fp80'):
                return RL.ZERO
            if k in ('arr', 'vec'):
                return tuple(self.cval(CZero(ty.elt), ty.elt) for _ in range(ty.n))
            return tuple(self.cval(CZero(t), t) for t in ty.fields)
        if isinstance(c, CUndef):
            k = ty.k
            if k == 'struct':
                return tuple(self.cval(c, t) for t in ty.fields)
            if k in ('arr', 'vec'):
                return tuple(self.cval(c, ty.elt) for _ in range(ty.n))
            return UNDEF
        if isinstance(c, CAgg):
            return tuple(self.cval(x, t) for t, x in c.elts)
        if isinstance(c, CBytes):
            return tuple(b if b < 128 else b - 256 for b in c.b)
        if isinstance(c, CExpr):
            if c.op == 'gep':
                p = self.cval(c.args[0][1], ir.PTR)
                return self.gep(p, c.ty, [self.cval(x, t) for t, x in c.args[1:]])
            if c.op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.cval(c.args[0][1], c.args[0][0])
            if c.op in ('sub', 'add'):
                a, b = [self.cval(x, t) for t, x in c.args]
                return self.iadd(a, b, c.ty.bits, False) if c.op == 'add' else self.isub(a, b, c.ty.bits, False)
            if c.op == 'trunc':
                return self.trunc(self.cval(c.args[0][1], c.args[0][0]), c.args[0][0].bits, c.ty.bits)
        raise Unsupported('const %r' % (getattr(c, 'op', c),))

    # ------------------------------------------------------------ memory
    def check_access(self, p, size, what):
        o = p.obj
        if type(p) is not Ptr:
            raise Unsupported('%s through %r' % (what, p))
        if o is None:
            self.ub('null-deref', '%s through null pointer' % what)
        if not o.alive:
            if type(o.alive) is Watch:
                o.alive.hit(self, p, size, what)
            else:
                self.ub('use-after-free', '%s of dead object %s' % (what, o.name))
        off = p.off
        if type(off) is int:
            if type(o.size) is int:
                if off < 0 or off + size > o.size:
                    self.ub('bounds', '%s at offset %d size %d of %s (size %d)' % (what, off, size, o.name, o.size))
        return o

    def fill(self, o, off, n, byte):
        if type(n) is not int:
            raise Unsupported('symbolic fill')
        i = off
        end = off + n
        while i < end:
            if i % 8 == 0 and i + 8 <= end:
                self.put(o, i, 8, wrapc(int.from_bytes(bytes([byte]) * 8, 'little'), 64))
                i += 8
            else:
                self.put(o, i, 1, wrapc(byte, 8))
                i += 1

    def put(self, o, off, size, v):
        if o.kind == 'symarr':
            q = o.data.where(self, Ptr(o, off), size, 'store')
            o, off = q.obj, q.off
        cells = o.cells
        old = cells.get(off)
        if old is not None and old[0] == size and not o.irregular:
            cells[off] = (size, v)
            return
        if not o.irregular:
            if size == 8 and off % 8 == 0:
                cells[off] = (8, v)
                return
            # switch to irregular
            o.irregular = True
        elif old is not None and old[0] == size:
            # no overlap possible with same-size cell at the same offset
            cells[off] = (size, v)
            return
        # remove overlaps
        for b in range(off - 15, off + size):
            c = cells.get(b)
            if c is None:
                continue
            cs, cv = c
            if b + cs <= off:
                continue
            del cells[b]
            if b < off:
                self._putpart(cells, b, cv, cs, 0, off - b)
            if b + cs > off + size:
                st = off + size - b
                self._putpart(cells, off + size, cv, cs, st, cs - st)
        cells[off] = (size, v)

    def _putpart(self, cells, off, v, size, first, n):
        for s, f, k, val in self._parts(v, size, first, n):
            if f == 0 and k == s:
                cells[off] = (k, val)
            else:
                # store byte slices
                for j in range(k):
                    cells[off + j] = (1, self._byte(val, s, f + j))
            off += k

    def _parts(self, v, size, first, n):
        if isinstance(v, Cat):
            out = []
            pos = 0
            for (pv, ps, pf, pn) in v.parts:
                a, b = max(first, pos), min(first + n, pos + pn)
                if a < b:
                    out.append((ps, pf + a - pos, b - a, pv))
                pos += pn
            return out
        return [(size, first, n, v)]

    def _byte(self, v, size, i):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, bool):
            return int(v) if i == 0 else 0
        if isinstance(v, int):
            return wrapc((v >> (8 * i)) & 255, 8)
        if isinstance(v, BI):
            return v if i == 0 else 0
        if isinstance(v, Cat):
            (s, f, k, val), = self._parts(v, size, i, 1)
            return self._byte(val, s, f)
        if size == 1:
            return v
        if isinstance(v, R) and v is RL.ZERO:
            return 0
        return Cat([(v, size, i, 1)])

    def get(self, o, off, size):
        if o.kind == 'symarr':
            q = o.data.where(self, Ptr(o, off), size, 'load')
            o, off = q.obj, q.off
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is None and not o.irregular and off % 8 == 0 and size == 8:
            if o.lazy is not None:
                return o.lazy(self, o, off, size)
            return UNDEF
        # gather
        parts = []
        pos = off
        end = off + size
        allc = True
        while pos < end:
            found = None
            for b in range(pos, pos - 16, -1):
                cc = o.cells.get(b)
                if cc is not None and b + cc[0] > pos:
                    found = (b, cc)
                    break
            if found is None:
                if o.lazy is not None:
                    v = o.lazy(self, o, pos, 1)
                    parts.append((v, 1, 0, 1))
                    allc = False
                    pos += 1
                    continue
                parts.append((UNDEF, 1, 0, 1))
                allc = False
                pos += 1
                continue
            b, (cs, cv) = found
            n = min(b + cs, end) - pos
            for s, f, k, val in self._parts(cv, cs, pos - b, n):
                parts.append((val, s, f, k))
                if not isinstance(val, int):
                    allc = False
            pos += n
        if allc:
            r = 0
            sh = 0
            for v, s, f, n in parts:
                r |= ((int(v) >> (8 * f)) & ((1 << (8 * n)) - 1)) << sh
                sh += 8 * n
            return wrapc(r, 8 * size)
        if all(v is UNDEF for v, _, _, _ in parts):
            return UNDEF
        # re-assembled whole value?
        v0, s0, f0, n0 = parts[0]
        if f0 == 0 and s0 == size:
            pos = 0
            ok = True
            for v, s, f, n in parts:
                if v is not v0 or s != s0 or f != pos:
                    ok = False
                    break
                pos += n
            if ok and pos == size:
                return v0
        if len(parts) == 1 and parts[0][2] == 0 and parts[0][1] == size:
            return v0
        return Cat(parts)

    def load(self, p, ty):
        k = ty.k
        if k == 'struct':
            return tuple(self.load(self.padd(p, ty.offs[i]), t) for i, t in enumerate(ty.fields))
        if k in ('arr', 'vec'):
            return tuple(self.load(self.padd(p, i * ty.elt.size), ty.elt) for i in range(ty.n))
        o = p.obj if type(p) is Ptr else None
        if o is None or not o.alive or type(p.off) is not int or type(o.size) is not int \
                or p.off < 0 or p.off + ty.size > o.size:
            o = self.check_access(p, ty.size, 'load')
            if o.kind == 'symarr':
                return o.data.load(self, p, ty)
            if type(p.off) is not int:
                p = self.concretise_off(p, ty.size)
        c = o.cells.get(p.off)
        if c is not None and c[0] == ty.size:
            v = c[1]
        else:
            if o.kind == 'extern':
                return self.models.extern_load(self, p, ty)
            if o.kind == 'symarr':
                return o.data.load(self, p, ty)
            v = self.get(o, p.off, ty.size)
        return self.as_type(v, ty)

    def concretise_off(self, p, size):
        """symbolic offset into a concrete object: case split over its elements."""
        o = p.obj
        if type(o.size) is not int or o.size > 4096:
            raise Unsupported('symbolic offset into %s' % o.name)
        v = self.ctx.concretise(p.off, 0, o.size - size, 'bounds', 'offset into %s%s' % (o.name, self.where()))
        return Ptr(o, v)

    def as_type(self, v, ty):
        k = ty.k
        if k == 'double' or k == 'float':
            if type(v) is R:
                return v
            if type(v) is BitsOf:
                return v.r
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0:
                    return RL.ZERO
                import struct
                if k == 'double':
                    return RL.const(struct.unpack('<d', struct.pack('<q', v))[0])
                return RL.const(struct.unpack('<f', struct.pack('<i', v))[0])
            return v
        if k == 'int':
            if ty.bits == 1:
                if type(v) is BI:
                    return v.c
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, z3.ArithRef):
                    return zc(v != 0)
                return v
            if type(v) is R:
                return BitsOf(v) if v is not RL.ZERO else 0
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Cond):
                return BI(v)
            return v
        if k == 'ptr':
            if isinstance(v, int) and v == 0:
                return NULL
            return v
        return v

    def rawstore(self, o, off, ty, v):
        k = ty.k
        if k == 'struct':
            for i, t in enumerate(ty.fields):
                self.rawstore(o, off + ty.offs[i], t, v[i])
            return
        if k in ('arr', 'vec'):
            for i in range(ty.n):
                self.rawstore(o, off + i * ty.elt.size, ty.elt, v[i])
            return
        if isinstance(v, bool):
            v = int(v)
        elif isinstance(v, Cond):
            v = BI(v)
        elif isinstance(v, BitsOf):
            v = v.r
        elif isinstance(v, Cat):
            if sum(p[3] for p in v.parts) == ty.size:
                pos = off
                for (pv, ps, pf, pn) in v.parts:
                    if pf == 0 and pn == ps:
                        self.put(o, pos, pn, pv)
                    else:
                        for j in range(pn):
                            self.put(o, pos + j, 1, self._byte(pv, ps, pf + j))
                    pos += pn
                return
        self.put(o, off, ty.size, v)

    @staticmethod
    def keeps(name):
        """a variable of the code under verification that outlives the call"""
        return STATIC.match(name) is not None

    def store(self, v, p, ty):
        o = p.obj if type(p) is Ptr else None
        if o is None or not o.alive or type(p.off) is not int or type(o.size) is not int \
                or p.off < 0 or p.off + ty.size > o.size or o.const or o.kind == 'symarr':
            o = self.check_access(p, ty.size, 'store')
            if o.const:
                self.ub('const-write', 'write to constant ' + o.name)
            if o.kind == 'symarr':
                return o.data.store(self, p, ty, v)
            if type(p.off) is not int:
                p = self.concretise_off(p, ty.size)
        if o.kind == 'global' and self.keeps(o.name):
            self.gwrites.add(o.name)
        self.rawstore(o, p.off, ty, v)

    def padd(self, p, n):
        if type(n) is int and n == 0:
            return p
        if type(p) is Ptr:
            if p.obj is None and type(n) is int and type(p.off) is int:
                return Ptr(None, p.off + n)
            return Ptr(p.obj, p.off + n)
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def gep(self, p, bt, idx):
        off = 0
        m = self.mod
        if bt.size is None:
            m.layout(bt)
        off = self._scale(idx[0], bt.size)
        t = bt
        for x in idx[1:]:
            if t.k == 'struct':
                m.layout(t)
                off = off + t.offs[x]
                t = t.fields[x]
            else:
                m.layout(t.elt)
                off = off + self._scale(x, t.elt.size)
                t = t.elt
        if type(off) is int and off == 0:
            return p
        return self.padd(p, off)

    def _scale(self, x, n):
        if isinstance(x, int):
            return x * n
        if isinstance(x, z3.ArithRef):
            return x * n
        if isinstance(x, BI):
            return self.toint(x) * n
        if x is UNDEF:
            self.ub('uninit', 'pointer arithmetic on uninitialised index')
        raise Unsupported('gep index %r' % (x,))

    def memcpy(self, d, s, n):
        if type(n) is not int:
            return self.models.sym_memcpy(self, d, s, n)
        if n == 0:
            return
        so = self.check_access(s, n, 'memcpy read')
        do = self.check_access(d, n, 'memcpy write')
        if do.kind == 'global' and self.keeps(do.name):
            self.gwrites.add(do.name)
        if so.kind == 'symarr' or do.kind == 'symarr' or type(s.off) is not int or type(d.off) is not int:
            return self.models.sym_memcpy(self, d, s, n)
        # collect cells
        items = []
        end = s.off + n
        cells = so.cells
        if n <= 4096 or len(cells) > 2000:
            pos = s.off
            while pos < end:
                c = cells.get(pos)
                if c is not None and pos + c[0] <= end:
                    items.append((pos - s.off, c[0], c[1]))
                    pos += c[0]
                    continue
                if not so.irregular and pos % 8 == 0 and pos + 8 <= end and so.lazy is None:
                    items.append((pos - s.off, 8, UNDEF))
                    pos += 8
                    continue
                v = self.get(so, pos, 1)
                items.append((pos - s.off, 1, v))
                pos += 1
        else:
            for b in sorted(cells):
                cs, cv = cells[b]
                if b >= s.off and b + cs <= end:
                    items.append((b - s.off, cs, cv))
        for o, sz, v in items:
            if isinstance(v, Cat):
                self.rawstore(do, d.off + o, ir.IntTy(8 * sz), v)
            else:
                self.put(do, d.off + o, sz, v)

    # ------------------------------------------------------------ integers
    def toint(self, v):
        """int or z3 Int"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, z3.ArithRef)):
            return v
        if isinstance(v, BI):
            return 1 if self.ctx.choose(v.c) else 0
        if isinstance(v, Cond):
            return 1 if self.ctx.choose(v) else 0
        if isinstance(v, Cat):
            r = 0
            sh = 0
            tot = sum(p[3] for p in v.parts)
            for i, (pv, ps, pf, pn) in enumerate(v.parts):
                if pv is UNDEF:
                    self.ub('uninit', 'use of uninitialised bytes')
                b = self.toint(pv) if not isinstance(pv, R) else None
                if b is None:
                    raise Unsupported('bytes of a real')
                x = self.unsigned(b, 8 * ps)
                if pf:
                    x = x // (1 << (8 * pf)) if isinstance(x, int) else x / (1 << (8 * pf))
                if pn + pf != ps:
                    x = x % (1 << (8 * pn))
                r = r + x * (1 << (8 * sh))
                sh += pn
            return self.wrap(r, 8 * tot)
        if v is UNDEF:
            self.ub('uninit', 'use of uninitialised value')
        if isinstance(v, self.models.MemCmp):
            return self.models.memcmp_int(self, v)
        if isinstance(v, BitsOf):
            if v.r.op == 'c':
                import struct
                return struct.unpack('<q', struct.pack('<d', float(v.r.a[0])))[0]
            raise Unsupported('integer view of a real')
        raise Unsupported('toint %r' % (v,))

    def unsigned(self, v, b):
        if isinstance(v, int):
            return v & ((1 << b) - 1)
        if self.ctx.quick_true(v >= 0):
            return v
        return z3.If(v < 0, v + (1 << b), v)

    def wrap(self, v, b):
        if isinstance(v, int):
            return wrapc(v, b)
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return wrapc(v.as_long(), b)
        if self.ctx.quick_true(z3.And(v >= lo(b), v <= hi(b))):
            return v
        return (v + (1 << (b - 1))) % (1 << b) - (1 << (b - 1))

    def _sym(self, r, b, nsw, what):
        if isinstance(r, int):
            if lo(b) <= r <= hi(b):
                return r
            if nsw:
                self.ub('overflow', 'signed overflow in ' + what)
            return wrapc(r, b)
        if nsw:
            self.ctx.oblige(zc(z3.And(r >= lo(b), r <= hi(b))), 'overflow',
                            'signed overflow in ' + what + self.where(), assume=True)
            return r
        return self.wrap(r, b)

    def iadd(self, a, b, w, nsw):
        if type(a) is int and type(b) is int:
            r = a + b
            if LO[w] <= r <= HI[w]:
                return r
            return self._sym(r, w, nsw, 'add')
        if type(a) is Ptr:
            return self.padd(a, self.toint(b))
        if type(b) is Ptr:
            return self.padd(b, self.toint(a))
        a, b = self.toint(a), self.toint(b)
        return self._sym(a + b, w, nsw, 'addition')

    def isub(self, a, b, w, nsw):
        if type(a) is int and type(b) is int:
            r = a - b
            if LO[w] <= r <= HI[w]:
                return r
            return self._sym(r, w, nsw, 'sub')
        if type(a) is Ptr:
            if type(b) is Ptr:
                if a.obj is b.obj:
                    r = a.off - b.off
                    return r if isinstance(r, int) else z3.simplify(r)
                raise Unsupported('difference of unrelated pointers')
            return self.padd(a, -self.toint(b))
        a, b = self.toint(a), self.toint(b)
        return self._sym(a - b, w, nsw, 'subtraction')

    def imul(self, a, b, w, nsw):
        a, b = self.toint(a), self.toint(b)
        return self._sym(a * b, w, nsw, 'multiplication')

    def sdiv(self, a, b, w):
        if type(a) is Ptr:
            raise Unsupported('division of pointer')
        a, b = self.toint(a), self.toint(b)
        if isinstance(b, int):
            if b == 0:
                self.ub('div-by-zero', 'integer division by zero')
        else:
            self.ctx.oblige(zc(b != 0), 'div-by-zero', 'integer division by zero' + self.where(), assume=True)
        if isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
        else:
            if isinstance(b, int) and b > 0 and not isinstance(a, int):
                # exact multiples (pointer differences): (k*x)/k
                q = _exact_div(a, b)
                if q is not None:
                    return q
            if isinstance(a, int):
                q = z3.IntVal(a) / b if a >= 0 else -(z3.IntVal(-a) / b)
            else:
                bb = z3.IntVal(b) if isinstance(b, int) else b
                if not isinstance(b, int) and self.ctx.quick_true(a >= 0) and self.ctx.quick_true(b > 0):
                    # Euclid: a = b q + r, 0 <= r < b
                    return self.euclid(a, b)[0]
                if self.ctx.quick_true(a >= 0):
                    q = a / bb
                else:
                    q = z3.If(a >= 0, a / bb, -((-a) / bb))
        return self._sym(q, w, True, 'division')

    def euclid(self, a, b):
        k = (a.get_id(), b.get_id())
        m = self.ghost.setdefault('euclid', {})
        if k not in m:
            q, r = self.ctx.fresh_int('quot'), self.ctx.fresh_int('rem')
            self.ctx.add_pc(zc(z3.And(a == b * q + r, r >= 0, r < b, q >= 0, q <= a)))
            m[k] = (q, r, a, b)
            if self.ctx.on_div is not None:
                self.ctx.on_div(q, r, a, b)
        return m[k]

    def srem(self, a, b, w):
        a, b = self.toint(a), self.toint(b)
        if not isinstance(b, int) and not isinstance(a, int) and self.ctx.quick_true(a >= 0) and self.ctx.quick_true(b > 0):
            return self.euclid(a, b)[1]
        q = self.sdiv(a, b, w)
        r = a - b * q
        return r if isinstance(r, int) else r

    def udiv(self, a, b, w):
        a, b = self.unsigned(self.toint(a), w), self.unsigned(self.toint(b), w)
        if isinstance(b, int):
            if b == 0:
                self.ub('div-by-zero', 'integer division by zero')
            if isinstance(a, int):
                return wrapc(a // b, w)
            q = _exact_div(a, b)
            if q is not None:
                return q
        else:
            self.ctx.oblige(zc(b != 0), 'div-by-zero', 'integer division by zero' + self.where(), assume=True)
        aa = z3.IntVal(a) if isinstance(a, int) else a
        return self.wrap(aa / b, w)

    def urem(self, a, b, w):
        if type(a) is Ptr and isinstance(b, int):
            return a.off % b
        a, b = self.unsigned(self.toint(a), w), self.unsigned(self.toint(b), w)
        if isinstance(b, int):
            if b == 0:
                self.ub('div-by-zero', 'integer division by zero')
            if isinstance(a, int):
                return wrapc(a % b, w)
        else:
            self.ctx.oblige(zc(b != 0), 'div-by-zero', 'integer remainder by zero' + self.where(), assume=True)
        aa = z3.IntVal(a) if isinstance(a, int) else a
        return self.wrap(aa % b, w)

    # partially undefined words (bit-field and union copies split by the optimiser): byte-wise, never inspected
    @staticmethod
    def hasundef(v):
        return v is UNDEF or (isinstance(v, Cat) and any(q[0] is UNDEF for q in v.parts))

    def bytelist(self, v, w):
        n = w // 8
        if v is UNDEF:
            return [UNDEF] * n
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if isinstance(v, Cat):
            out = []
            for pv, ps, pf, pn in v.parts:
                out += [UNDEF if pv is UNDEF else ((pv >> (8 * i)) & 255) if isinstance(pv, int) else (pv, ps, i) for i in range(pf, pf + pn)]
            return out
        if isinstance(v, z3.ArithRef):
            m = n
            for q in (1, 2, 4):
                if q < n and self.ctx.quick_true(z3.And(v >= 0, v < (1 << (8 * q)))):
                    m = q
                    break
            return [(v, n, i) for i in range(m)] + [0] * (n - m)
        raise Unsupported('bytes of %r' % (v,))

    def frombytes(self, bs):
        if all(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            return wrapc(sum(b << (8 * i) for i, b in enumerate(bs)), 8 * len(bs))
        parts = []
        for b in bs:
            if b is UNDEF:
                if parts and parts[-1][0] is UNDEF:
                    k = parts[-1][3] + 1
                    parts[-1] = (UNDEF, k, 0, k)
                else:
                    parts.append((UNDEF, 1, 0, 1))
            elif isinstance(b, int):
                parts.append((b, 1, 0, 1))
            elif parts and parts[-1][0] is b[0] and parts[-1][2] + parts[-1][3] == b[2]:
                q = parts[-1]
                parts[-1] = (q[0], q[1], q[2], q[3] + 1)
            else:
                parts.append((b[0], b[1], b[2], 1))
        return Cat(parts)

    def bytewise(self, op, a, b, w):
        if w % 8:
            self.ub('uninit', 'use of uninitialised value')
        out = []
        for x, y in zip(self.bytelist(a, w), self.bytelist(b, w)):
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int):
                if isinstance(x, int):
                    out.append(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
                    continue
                if op == 'and' and y == 0:
                    out.append(0)
                    continue
                if (op == 'and' and y == 255) or (op != 'and' and y == 0):
                    out.append(x)
                    continue
                if op == 'or' and y == 255:
                    out.append(255)
                    continue
            if x is UNDEF or y is UNDEF:
                out.append(UNDEF)
                continue
            raise Unsupported('byte-wise %s' % op)
        return self.frombytes(out)

    def bitop(self, op, a, b, w):
        if w == 1:
            a = self.tobool(a)
            b = self.tobool(b)
            if op == 'and':
                return c_and(a, b)
            if op == 'or':
                return c_or(a, b)
            if isinstance(a, bool):
                return c_not(b) if a else b
            if isinstance(b, bool):
                return c_not(a) if b else a
            return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        if isinstance(a, BI) or isinstance(b, BI):
            if isinstance(a, BI) and isinstance(b, int):
                if op == 'and':
                    return a if b & 1 else 0
                if op == 'xor' and b == 1:
                    return BI(c_not(a.c))
                if op == 'or' and b == 0:
                    return a
            if isinstance(a, BI) and isinstance(b, BI):
                if op == 'and':
                    return self.mkbi(c_and(a.c, b.c))
                if op == 'or':
                    return self.mkbi(c_or(a.c, b.c))
        if type(a) is Ptr and isinstance(b, int):
            if op == 'and' and 0 < b < 64 and isinstance(a.off, int):
                return a.off & b
            if op == 'and' and b < 0 and isinstance(a.off, int):
                return Ptr(a.obj, a.off & b)
            if op == 'or' and b == 0:
                return a
            if op in ('or', 'xor') and 0 < b < 8 and isinstance(a.off, int):     # tag bits: objects are at least 8-aligned
                return Ptr(a.obj, a.off | b if op == 'or' else a.off ^ b)
        if self.hasundef(a) or self.hasundef(b):
            return self.bytewise(op, a, b, w)
        a, b = self.toint(a), self.toint(b)
        if isinstance(a, int) and isinstance(b, int):
            r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
            return wrapc(r, w)
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if op == 'and':
                if b == -1:
                    return a
                if b == 0:
                    return 0
                u = b & ((1 << w) - 1)
                if u & (u + 1) == 0:
                    return self.wrap(self.unsigned(a, w) % (u + 1), w)
                if b < 0 and (-b) & (-b - 1) == 0:
                    return a - a % (-b)
                # generic single-block mask
                tz = (u & -u).bit_length() - 1
                if (u >> tz) & ((u >> tz) + 1) == 0:
                    return self.wrap(((self.unsigned(a, w) / (1 << tz)) % ((u >> tz) + 1)) * (1 << tz), w)
            if op == 'or' and b == 0:
                return a
            if op == 'xor':
                if b == -1:
                    return -1 - a
                if b == 0:
                    return a
        # bit-vector fallback
        x, y = z3.Int2BV(a, w), (z3.BitVecVal(b, w) if isinstance(b, int) else z3.Int2BV(b, w))
        r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
        return z3.BV2Int(r, True)

    def shl(self, a, b, w, nsw):
        if isinstance(b, int) and b % 8 == 0 and b < w and self.hasundef(a):
            return self.frombytes(([0] * (b // 8) + self.bytelist(a, w))[:w // 8])
        a, b = self.toint(a), self.toint(b)
        if isinstance(b, int):
            if isinstance(a, int):
                return wrapc(a << b, w)
            return self._sym(a * (1 << b), w, nsw, 'shift')
        raise Unsupported('symbolic shift')

    def lshr(self, a, b, w):
        a, b = self.toint(a), self.toint(b)
        if isinstance(b, int):
            u = self.unsigned(a, w)
            if isinstance(u, int):
                return wrapc(u >> b, w)
            return self.wrap(u / (1 << b), w)
        raise Unsupported('symbolic shift')

    def ashr(self, a, b, w):
        if type(a) is int and type(b) is int:
            return a >> b
        a, b = self.toint(a), self.toint(b)
        if isinstance(b, int):
            if isinstance(a, int):
                return a >> b
            q = _exact_div(a, 1 << b)
            if q is not None:
                return q
            return a / (1 << b)
        raise Unsupported('symbolic shift')

    def mkbi(self, c):
        return int(c) if isinstance(c, bool) else BI(c)

    def tobool(self, v):
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, int):
            return bool(v)
        if v is UNDEF:
            self.ub('uninit', 'use of uninitialised boolean')
        if isinstance(v, BI):
            return v.c
        raise Unsupported('tobool %r' % (v,))

    def zext(self, v, w1, w2):
        if w1 == 1:
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Cond):
                return BI(v)
            if v is UNDEF:
                self.ub('uninit', 'use of uninitialised boolean')
        if isinstance(v, int):
            return v & ((1 << w1) - 1)
        if isinstance(v, BI):
            return v
        if w1 % 8 == 0 and self.hasundef(v):
            return self.frombytes(self.bytelist(v, w1) + [0] * ((w2 - w1) // 8))
        return self.unsigned(self.toint(v), w1)

    def sext(self, v, w1, w2):
        if w1 == 1:
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, Cond):
                return -1 if self.ctx.choose(v) else 0
        if isinstance(v, int):
            return v
        return self.toint(v)

    def trunc(self, v, w1, w2):
        if isinstance(v, int):
            if w2 == 1:
                return bool(v & 1)
            return wrapc(v, w2)
        if isinstance(v, BI):
            return v.c if w2 == 1 else v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Cat) and w2 % 8 == 0:
            ps = self._parts(v, w1 // 8, 0, w2 // 8)
            if len(ps) == 1 and ps[0][1] == 0 and ps[0][0] == ps[0][2]:
                return ps[0][3]
            return Cat([(val, s, f, k) for s, f, k, val in ps])
        if isinstance(v, BitsOf):
            return Cat([(v.r, 8, 0, w2 // 8)])
        v = self.toint(v)
        if w2 == 1:
            return zc(v % 2 == 1)
        return self.wrap(v, w2)

    def icmp(self, pred, a, b, w):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            if pred in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
                pass
            else:
                mask = (1 << w) - 1
                a &= mask
                b &= mask
            return _CMP[pred](a, b)
        if ta is tuple or tb is tuple:
            return (a == b) == (pred == 'eq')
        if ta is self.models.MemCmp:
            if tb is int and b == 0 and pred in ('eq', 'ne'):
                e = self.models.memcmp_eq(self, a)
                return e if pred == 'eq' else c_not(e)
            a = self.models.memcmp_int(self, a)
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            x = self.bitop('xor', a, b, 1)
            if pred == 'eq':
                return c_not(x)
            if pred == 'ne':
                return x
            raise Unsupported('i1 compare')
        if ta is BI and tb is int or tb is BI and ta is int:
            if tb is BI:
                a, b = b, a
                pred = _SWAP[pred]
            if pred == 'eq':
                return a.c if b == 1 else c_not(a.c) if b == 0 else False
            if pred == 'ne':
                return c_not(a.c) if b == 1 else a.c if b == 0 else True
            if pred in ('slt', 'sle', 'sgt', 'sge'):
                t, f = _CMP[pred](1, b), _CMP[pred](0, b)
                return t if t == f else (a.c if t else c_not(a.c))
        if ta is BI and tb is BI and pred in ('eq', 'ne'):
            x = self.bitop('xor', a.c, b.c, 1)
            return x if pred == 'ne' else c_not(x)
        if ta is BI and tb is BI:
            a, b = self.toint(a), self.toint(b)
            return _CMP[pred](a, b)
        if ta is Ptr or tb is Ptr or ta is FnPtr or tb is FnPtr:
            return self.pcmp(pred, a, b)
        if ta is Cat or tb is Cat:
            r = self.cat_eq(pred, a, b, w)
            if r is not None:
                return r
        a, b = self.toint(a), self.toint(b)
        if pred[0] == 'u':
            a, b = self.unsigned(a, w), self.unsigned(b, w)
        return zc(_CMP[pred](a, b))

    def cat_eq(self, pred, a, b, w):
        return None

    def pcmp(self, pred, a, b):
        if isinstance(a, int):
            a = NULL if a == 0 else Ptr(None, a)
        if isinstance(b, int):
            b = NULL if b == 0 else Ptr(None, b)
        if a is UNDEF or b is UNDEF:
            self.ub('uninit', 'comparison of uninitialised pointer')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            if pred == 'eq':
                return e
            if pred == 'ne':
                return not e
            raise Unsupported('fnptr compare')
        if type(a) is not Ptr or type(b) is not Ptr:
            raise Unsupported('pointer compare %r %r' % (a, b))
        if a.obj is b.obj:
            x, y = a.off, b.off
            p = pred.replace('u', 's') if pred[0] == 'u' else pred
            r = _CMP[p](x, y)
            return r if isinstance(r, bool) else zc(z3.simplify(r))
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        if pred[0] in 'us':
            # unrelated objects: order by allocation id (used by overlap checks)
            ia = -1 if a.obj is None else a.obj.id
            ib = -1 if b.obj is None else b.obj.id
            return _CMP[pred](ia, ib)
        raise Unsupported('pointer order')

    # ------------------------------------------------------------ reals
    def real(self, v):
        if type(v) is R:
            return v
        if type(v) is BitsOf:
            return v.r
        if v is UNDEF:
            self.ub('uninit', 'use of uninitialised floating-point value')
        if isinstance(v, Cat):
            raise Unsupported('real from bytes')
        raise Unsupported('real %r' % (v,))

    def fop(self, op, a, b):
        if isinstance(a, tuple):
            return tuple(self.fop(op, x, y) for x, y in zip(a, b))
        if type(a) is not R:
            a = self.real(a)
        if type(b) is not R:
            b = self.real(b)
        if op == '+':
            r = RL.add(a, b)
        elif op == '-':
            r = RL.sub(a, b)
        elif op == '*':
            r = RL.mul(a, b)
        elif op == '/':
            if b.op == 'c':
                if b.a[0] == 0:
                    if a.op in ('c', 'special'):
                        return RL.div(a, b)
                    self.ctx.oblige(False, 'fdiv-by-zero', 'floating-point division by zero' + self.where())
                    raise PathEnd('fdiv')
            elif b.op != 'special':
                self.ctx.oblige(rc('ne', b), 'fdiv-by-zero', 'floating-point division by zero' + self.where(),
                                assume=True)
            r = RL.div(a, b)
        else:
            raise Unsupported('frem')
        if self.ctx.rounding and r.op != 'special':
            r = self.ctx.round(r, op, a, b)
        return r

    def fneg(self, a):
        if isinstance(a, tuple):
            return tuple(self.fneg(x) for x in a)
        return RL.neg(self.real(a))

    def fcmp(self, pred, a, b):
        a, b = self.real(a), self.real(b)
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        nan = (a.op == 'special' and a.a[0] == 'nan') or (b.op == 'special' and b.a[0] == 'nan')
        if nan:
            return pred[0] == 'u'
        if pred == 'ord':
            return True
        if pred == 'uno':
            return False
        p = pred[1:]
        if a.op == 'special' or b.op == 'special':
            fa = float(a.a[0]) if a.op == 'special' else 0.0
            fb = float(b.a[0]) if b.op == 'special' else 0.0
            return bool(_CMP['s' + p if p not in ('eq', 'ne') else p](fa, fb))
        return rc(p, RL.sub(a, b))

    def fptosi(self, v, w, signed=True):
        v = self.real(v)
        b_lo, b_hi = (lo(w), hi(w)) if signed else (0, (1 << w) - 1)
        if v.op == 'c':
            t = int(v.a[0])
            if not (b_lo <= t <= b_hi):
                self.ub('fp-to-int', 'floating-point value out of integer range')
            return wrapc(t, w)
        if v.op == 'special':
            self.ub('fp-to-int', 'conversion of inf/nan to integer')
        n = self.ctx.trunc_int(v)
        self.ctx.oblige(zc(z3.And(n >= b_lo, n <= b_hi)), 'fp-to-int',
                        'floating-point value out of integer range' + self.where(), assume=True)
        return self.wrap(n, w)

    def sitofp(self, v, w, unsigned=False):
        if isinstance(v, BI):
            v = 1 if self.ctx.choose(v.c) else 0
        if isinstance(v, bool):
            v = int(v)
        v = self.toint(v)
        if unsigned:
            v = self.unsigned(v, w)
        if isinstance(v, int):
            return RL.const(float(v))
        r = RL.toreal(v)
        if self.ctx.rounding:
            r = self.ctx.round_int(r, v)
        return r

    def select(self, c, a, b):
        if isinstance(c, tuple):
            return tuple(self.select(x, y, z) for x, y, z in zip(c, a, b))
        c = self.tobool(c)
        if isinstance(c, bool):
            return a if c else b
        if type(a) is int and type(b) is int and a == b:
            return a
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return c_or(c_and(c, a), c_and(c_not(c), b))
        return a if self.ctx.choose(c) else b

    # ------------------------------------------------------------ calls
    def lookup(self, name):
        h = self._ov.get(name)
        if h is not None:
            return h
        f = self.mod.funcs.get(name)
        if f is None and name in self.mod.globals:
            g = self.mod.resolve_global(self.mod.globals[name])
            if g.alias is not None:
                h = self.lookup(g.alias.name)
                self._ov[name] = h
                return h
        d = f.demangled if f else name
        h = None
        for pat, fnc in self.overrides:
            if pat.match(d):
                h = ('py', fnc)
                break
        if h is None:
            fnc = self.models.find(name, d, f)
            if fnc is not None:
                h = ('py', fnc)
            elif f is not None and f.defined:
                h = ('ir', f)
            else:
                h = ('none', d)
        self._ov[name] = h
        return h

    def call(self, name, args):
        k, h = self.lookup(name)
        if k == 'py':
            return h(self, args, name)
        if k == 'ir':
            return self.run(h, args)
        raise Unsupported('call to ' + h[:200])

    def callp(self, p, args):
        if isinstance(p, FnPtr):
            return self.call(p.name, args)
        if isinstance(p, Ptr) and p.obj is None:
            self.ub('null-call', 'call through null pointer')
        if p is UNDEF:
            self.ub('uninit', 'call through uninitialised pointer')
        raise Unsupported('indirect call through %r' % (p,))

    def run(self, f, args):
        code = f.code
        if code is None:
            code = compile_func(self.mod, f)
        self.depth += 1
        if self.depth > 900:
            raise Unsupported('call depth')
        blocks, nregs, nparams, consts, name = code
        Rg = [None] * nregs
        Rg[:len(args)] = args
        K = consts
        allocs = []
        Rg[nregs - 1] = allocs
        hooks = self.ctx.loops_of(f) if self.ctx.loop_specs else None
        self.stack.append(name)
        self.ctx.note_function(f)
        b = 0
        n = 0
        try:
            while b >= 0:
                n += 1
                if n > 200000:
                    raise Unsupported('loop bound in ' + f.demangled[:80])
                if hooks is not None and b in hooks:
                    hooks[b](Rg)
                b = blocks[b](self, Rg, K)
            return Rg[nregs - 2]
        finally:
            self.stack.pop()
            self.depth -= 1
            for o in allocs:
                o.alive = False

    def alloca(self, allocs, size, name):
        o = self.new_obj(size, 'stack', name)
        allocs.append(o)
        return Ptr(o, 0)

    def byval(self, allocs, p, size):
        q = self.alloca(allocs, size, 'byval')
        self.memcpy(q, p, size)
        return q

    def lifetime(self, start, a):
        p = a[1]
        if type(p) is not Ptr or p.obj is None or p.off != 0 or p.obj.kind != 'stack' or a[0] not in (-1, p.obj.size):
            return
        if start:
            p.obj.alive = True
            p.obj.cells = {}
            p.obj.irregular = False
        else:
            p.obj.alive = False

    def landingpad(self, exc, cleanup, clauses):
        ti = exc.ti
        self.ghost['exc'] = exc
        for k, c in clauses:
            if k == 'catch':
                t = self.cval(c, ir.PTR)
                if isinstance(t, Ptr) and t.obj is None:
                    return (exc.ptr, 1)
                tn = t.obj.name
                if self.models.type_matches(self, ti, tn):
                    return (exc.ptr, ('sel', tn))
            else:
                raise Unsupported('filter clause')
        if cleanup:
            return (exc.ptr, ('sel', None))
        # no clause matches: continue unwinding
        raise exc

    def unreachable(self):
        self.ub('unreachable', 'unreachable code reached')

    def switch(self, v, cases, default, w):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return cases.get(v, default)
        if isinstance(v, BI):
            v = 1 if self.ctx.choose(v.c) else 0
            return cases.get(v, default)
        v = self.toint(v)
        if isinstance(v, int):
            return cases.get(v, default)
        for c, t in cases.items():
            if self.ctx.choose(zc(v == c)):
                return t
        return default

    def selcmp(self, a, b):
        return a == b

    def atomicrmw(self, op, p, v, ty):
        old = self.load(p, ty)
        o, x = self.toint(old), self.toint(v)
        new = {'add': lambda: o + x, 'sub': lambda: o - x, 'xchg': lambda: x}[op]()
        self.store(new, p, ty)
        return old

    def cmpxchg(self, p, a, b, ty):
        old = self.load(p, ty)
        e = self.icmp('eq', old, a, ty.bits if ty.k == 'int' else 64)
        if self.ctx.choose(e):
            self.store(b, p, ty)
            return (old, True)
        return (old, False)

    def bitcast(self, v, t1, t2):
        if t1.k == t2.k and t1.k not in ('vec',):
            return v
        if t1.k == 'double' and t2.k == 'int':
            if v is RL.ZERO:
                return 0
            return BitsOf(v)
        if t1.k == 'int' and t2.k == 'double':
            return self.as_type(v, t2)
        if t1.k == 'vec' or t2.k == 'vec':
            o = self.new_obj(16, 'tmp', 'bitcast')
            self.rawstore(o, 0, t1, v)
            return self.load(Ptr(o, 0), t2)
        raise Unsupported('bitcast %r %r' % (t1, t2))


def _exact_div(a, k):
    """a/k for z3 term a syntactically a multiple of k (sum of k*x terms), else None."""
    a = z3.simplify(a, som=True) if not z3.is_const(a) else a

    def f(t):
        if z3.is_int_value(t):
            v = t.as_long()
            return z3.IntVal(v // k) if v % k == 0 else None
        if z3.is_mul(t):
            ch = t.children()
            if z3.is_int_value(ch[0]) and ch[0].as_long() % k == 0:
                c = ch[0].as_long() // k
                rest = ch[1] if len(ch) == 2 else z3.Product(ch[1:])
                return c * rest if c != 1 else rest
            return None
        if z3.is_add(t):
            r = None
            for c in t.children():
                x = f(c)
                if x is None:
                    return None
                r = x if r is None else r + x
            return r
        return None
    r = f(a)
    return None if r is None else z3.simplify(r)


_CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
        'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
        'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b}
_SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult',
         'ule': 'uge', 'uge': 'ule'}


# ------------------------------------------------------------------ codegen
def compile_func(mod, f):
    """Translate an IR function to a list of Python block functions."""
    if not f.parsed:
        ir.parse_func(f)
    regs = {}
    for nm, t, at in f.params:
        regs[nm] = len(regs)
    blocks = f.blocks
    labels = {}
    for i, (l, ins) in enumerate(blocks):
        labels[l] = i
        for x in ins:
            if x.res is not None:
                regs[x.res] = len(regs)
    nregs = len(regs) + 3
    RET = nregs - 2
    ALL = nregs - 1
    K = []

    def kst(v):
        K.append(v)
        return 'K[%d]' % (len(K) - 1)

    def opnd(c, ty):
        if isinstance(c, CReg):
            return 'R[%d]' % regs[c.name]
        if isinstance(c, bool):
            return repr(c)
        if isinstance(c, int):
            return '%d' % c if c >= 0 else '(%d)' % c
        if isinstance(c, tuple):
            return kst(RL.const(c[1]))
        if isinstance(c, CGlobal):
            return 'E.gptr(%r)' % c.name
        if isinstance(c, CZero) and ty.k == 'ptr':
            return kst(NULL)
        if isinstance(c, CUndef) and ty.k not in ('struct', 'arr', 'vec'):
            return kst(UNDEF)
        return 'E.cval(%s,%s)' % (kst(c), kst(ty))

    # phi maps: edge (from label, to label) -> assignments
    phis = {}
    for l, ins in blocks:
        ph = [x for x in ins if x.op == 'phi']
        if ph:
            phis[l] = ph

    def edge(frm, to):
        """python statements performing phi assignment, then the block index"""
        ph = phis.get(to)
        if not ph:
            return '', labels[to]
        ls, rs = [], []
        for x in ph:
            for v, l in x.x:
                if l == frm:
                    ls.append('R[%d]' % regs[x.res])
                    rs.append(opnd(v, x.ty))
                    break
        return '%s = %s' % (', '.join(ls), ', '.join(rs)), labels[to]

    src = []
    tmp = [0]
    for bi, (l, ins) in enumerate(blocks):
        src.append('def b%d(E,R,K):' % bi)

        def w(s, ind=1):
            src.append(' ' * ind + s)
        n0 = len(src)
        pend_lp = None
        for x in ins:
            op = x.op
            r = 'R[%d]' % regs[x.res] if x.res is not None else None
            if op == 'phi':
                continue
            if op == 'load':
                w('%s = E.load(%s, %s)' % (r, opnd(x.a[0], ir.PTR), kst(x.ty)))
            elif op == 'store':
                w('E.store(%s, %s, %s)' % (opnd(x.a[0], x.ty), opnd(x.a[1], ir.PTR), kst(x.ty)))
            elif op == 'alloca':
                n = x.a[0]
                if n is None or (isinstance(n, int) and n == 1):
                    w('%s = E.alloca(R[%d], %d, %r)' % (r, ALL, x.ty.size, x.res))
                else:
                    w('%s = E.alloca(R[%d], %d*E.toint(%s), %r)' % (r, ALL, x.ty.size, opnd(n, ir.IntTy(64)), x.res))
            elif op == 'getelementptr':
                bt = x.ty
                (pt, pv), rest = x.a[0], x.a[1:]
                if any(t.k == 'vec' for t, _ in x.a):
                    w('raise Unsupported("vector gep")')
                    continue
                # constant-fold
                off = 0
                dyn = []
                mod.layout(bt)
                t = bt
                ok = True
                for i, (it, iv) in enumerate(rest):
                    if i == 0:
                        sz = bt.size
                    elif t.k == 'struct':
                        mod.layout(t)
                        off += t.offs[iv]
                        t = t.fields[iv]
                        continue
                    else:
                        mod.layout(t.elt)
                        sz = t.elt.size
                        t = t.elt
                    if isinstance(iv, int) and not isinstance(iv, bool):
                        off += sz * iv
                    else:
                        dyn.append((opnd(iv, it), sz))
                e = opnd(pv, ir.PTR)
                s = str(off)
                for d, sz in dyn:
                    s += ' + E._scale(%s,%d)' % (d, sz)
                if not dyn and off == 0:
                    w('%s = %s' % (r, e))
                else:
                    w('%s = E.padd(%s, %s)' % (r, e, s))
            elif op in ('add', 'sub', 'mul'):
                if x.ty.k != 'int':
                    w('raise Unsupported("vector int op")')
                    continue
                w('%s = E.i%s(%s, %s, %d, %s)' % (r, op, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty), x.ty.bits,
                                                 'nsw' in x.x))
            elif op in ('sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr'):
                w('%s = E.%s(%s, %s, %d)' % (r, op, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty), x.ty.bits))
            elif op == 'shl':
                w('%s = E.shl(%s, %s, %d, %s)' % (r, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty), x.ty.bits, 'nsw' in x.x))
            elif op in ('and', 'or', 'xor'):
                if x.ty.k != 'int':
                    w('raise Unsupported("vector bit op")')
                    continue
                w('%s = E.bitop(%r, %s, %s, %d)' % (r, op, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty), x.ty.bits))
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                o = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'frem': '%'}[op]
                w('%s = E.fop(%r, %s, %s)' % (r, o, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty)))
            elif op == 'fneg':
                w('%s = E.fneg(%s)' % (r, opnd(x.a[0], x.ty)))
            elif op == 'icmp':
                wd = x.ty.bits if x.ty.k == 'int' else 64
                w('%s = E.icmp(%r, %s, %s, %d)' % (r, x.x, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty), wd))
            elif op == 'fcmp':
                w('%s = E.fcmp(%r, %s, %s)' % (r, x.x, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty)))
            elif op in ('zext', 'sext', 'trunc'):
                if x.ty.k != 'int':
                    w('raise Unsupported("vector cast")')
                    continue
                w('%s = E.%s(%s, %d, %d)' % (r, op, opnd(x.a[0], x.ty), x.ty.bits, x.x.bits))
            elif op in ('bitcast', 'addrspacecast'):
                if x.ty.k == x.x.k and x.ty.k != 'vec':
                    w('%s = %s' % (r, opnd(x.a[0], x.ty)))
                else:
                    w('%s = E.bitcast(%s, %s, %s)' % (r, opnd(x.a[0], x.ty), kst(x.ty), kst(x.x)))
            elif op in ('ptrtoint', 'inttoptr'):
                w('%s = E.as_type(%s, %s)' % (r, opnd(x.a[0], x.ty), kst(x.x)))
            elif op in ('sitofp', 'uitofp'):
                w('%s = E.sitofp(%s, %d, %s)' % (r, opnd(x.a[0], x.ty), x.ty.bits or 0, op == 'uitofp'))
            elif op in ('fptosi', 'fptoui'):
                w('%s = E.fptosi(%s, %d, %s)' % (r, opnd(x.a[0], x.ty), x.x.bits, op == 'fptosi'))
            elif op in ('fpext', 'fptrunc', 'freeze'):
                w('%s = %s' % (r, opnd(x.a[0], x.ty)))
            elif op == 'select':
                w('%s = E.select(%s, %s, %s)' % (r, opnd(x.a[0], ir.IntTy(1)), opnd(x.a[1], x.ty), opnd(x.a[2], x.ty)))
            elif op == 'extractvalue':
                w('%s = %s%s' % (r, opnd(x.a[0], x.ty), ''.join('[%d]' % i for i in x.x)))
            elif op == 'insertvalue':
                w('%s = insval(%s, %s, %r)' % (r, opnd(x.a[0], x.ty), opnd(x.a[1], _sub_ty(mod, x.ty, x.x)), tuple(x.x)))
            elif op == 'extractelement':
                w('%s = %s[%s]' % (r, opnd(x.a[0], x.ty), opnd(x.a[1], ir.IntTy(64))))
            elif op == 'insertelement':
                w('%s = insval(%s, %s, (%s,))' % (r, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty.elt),
                                                  opnd(x.a[2], ir.IntTy(64))))
            elif op == 'shufflevector':
                w('%s = shuffle(%s, %s, %s)' % (r, opnd(x.a[0], x.ty), opnd(x.a[1], x.ty), opnd(x.a[2], x.x)))
            elif op in ('call', 'invoke'):
                callee, args = x.a
                as_ = []
                for t, c, at in args:
                    o = opnd(c, t)
                    if at and 'byval' in at:
                        o = 'E.byval(R[%d], %s, %d)' % (ALL, o, at['byval'].size)
                    as_.append(o)
                al = '[%s]' % ', '.join(as_)
                if isinstance(callee, CGlobal):
                    nm = callee.name
                    if nm.startswith('llvm.lifetime'):
                        w('E.lifetime(%s, %s)' % (nm.startswith('llvm.lifetime.start'), al))
                        continue
                    if nm.startswith(('llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias',
                                      'llvm.prefetch', 'llvm.donothing')):
                        continue
                    cs = 'E.call(%r, %s)' % (nm, al)
                else:
                    cs = 'E.callp(%s, %s)' % (opnd(callee, ir.PTR), al)
                if op == 'call':
                    w('%s%s' % (r + ' = ' if r else '', cs))
                else:
                    n, u = x.x
                    w('try:')
                    w('%s%s' % (r + ' = ' if r else '', cs), 2)
                    w('except CxxThrow as e:')
                    ph, tgt = edge(l, u)
                    w('E.last_exc = e', 2)
                    if ph:
                        w(ph, 2)
                    w('return %d' % tgt, 2)
                    ph, tgt = edge(l, n)
                    if ph:
                        w(ph)
                    w('return %d' % tgt)
            elif op == 'landingpad':
                w('%s = E.landingpad(E.last_exc, %r, %s)' % (
                    r, x.x[0], kst([(k, c) for k, t, c in x.x[1]])))
            elif op == 'resume':
                w('raise E.models.resume(E, %s)' % opnd(x.a[0], x.ty))
            elif op == 'br':
                ph, tgt = edge(l, x.x[0])
                if ph:
                    w(ph)
                w('return %d' % tgt)
            elif op == 'condbr':
                w('c = %s' % opnd(x.a[0], ir.IntTy(1)))
                w('if c is True or (c is not False and E.ctx.choose(E.tobool(c))):')
                ph, tgt = edge(l, x.x[0])
                if ph:
                    w(ph, 2)
                w('return %d' % tgt, 2)
                ph, tgt = edge(l, x.x[1])
                if ph:
                    w(ph)
                w('return %d' % tgt)
            elif op == 'switch':
                d, cases = x.x
                w('t = E.switch(%s, %s, %r, %d)' % (opnd(x.a[0], x.ty), kst({v: lab for v, lab in cases}), d,
                                                   x.ty.bits))
                for lab in dict.fromkeys([d] + [c for _, c in cases]):
                    ph, tgt = edge(l, lab)
                    w('if t == %r:' % lab)
                    if ph:
                        w(ph, 2)
                    w('return %d' % tgt, 2)
            elif op == 'ret':
                if x.a:
                    w('R[%d] = %s' % (RET, opnd(x.a[0], x.ty)))
                w('return -1')
            elif op == 'unreachable':
                w('E.unreachable()')
            elif op == 'atomicrmw':
                w('%s = E.atomicrmw(%r, %s, %s, %s)' % (r or '_', x.x, opnd(x.a[0], ir.PTR), opnd(x.a[1], x.ty),
                                                       kst(x.ty)))
            elif op == 'cmpxchg':
                w('%s = E.cmpxchg(%s, %s, %s, %s)' % (r, opnd(x.a[0], ir.PTR), opnd(x.a[1], x.ty),
                                                     opnd(x.a[2], x.ty), kst(x.ty)))
            else:
                raise Unsupported('codegen ' + op)
        if len(src) == n0:
            w('pass')
    ns = {'CxxThrow': CxxThrow, 'insval': insval, 'shuffle': shuffle, 'Unsupported': Unsupported}
    exec(compile('\n'.join(src), '<ir:%s>' % f.name[:60], 'exec'), ns)
    code = ([ns['b%d' % i] for i in range(len(blocks))], nregs, len(f.params), K, f.demangled)
    f.code = code
    f.attrs = {'regs': regs, 'labels': labels, 'src': src}
    return code


def _sub_ty(mod, t, idx):
    for i in idx:
        t = t.fields[i] if t.k == 'struct' else t.elt
    return t


def insval(agg, v, idx):
    i = idx[0]
    if len(idx) > 1:
        v = insval(agg[i], v, idx[1:])
    return agg[:i] + (v,) + agg[i + 1:]


def shuffle(a, b, m):
    ab = a + b
    return tuple(UNDEF if i is UNDEF else ab[i] for i in m)
