"""Assumed contracts for code outside the repository: libm, memory
primitives, the C++ runtime, libuuid, libstdc++ and compiler intrinsics.
Everything used during a run is recorded by ctx.note_assumed and ends up in
the evidence file."""
import re
import z3
from . import ir
from . import reals as RL
from .reals import R, Cond, rc, zc, c_not, c_and, c_or
from .engine import (Unsupported, PathEnd, CxxThrow, Abort, UNDEF, Obj, Ptr, NULL, FnPtr, BitsOf, BI, Cat,
                     wrapc, lo, hi)

EXACT = {}
PATS = []


class MemCmp:
    """lazy result of memcmp"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b


def model(*names, note=None):
    def d(f):
        f.note = note
        for n in names:
            EXACT[n] = f
        return f
    return d


def pat(rx, note=None):
    def d(f):
        f.note = note
        PATS.append((re.compile(rx), f))
        return f
    return d


def find(name, dem, f):
    h = EXACT.get(name)
    if h is None and name.startswith('llvm.'):
        base = name
        while base:
            h = EXACT.get(base)
            if h is not None or '.' not in base:
                break
            base = base.rsplit('.', 1)[0]
    if h is None:
        for rx, g in PATS:
            if rx.match(dem):
                h = g
                break
    if h is None:
        return None
    if getattr(h, 'note', None):
        note = h.note

        def w(E, a, n, h=h, note=note):
            E.ctx.note_assumed(note)
            return h(E, a, n)
        return w
    return h


def extern_load(E, p, ty):
    nm = p.obj.name
    if nm == '__libc_single_threaded':
        return 1
    if nm.startswith(('_ZTVN10__cxxabiv', '_ZTVSt', '_ZTV')):
        return FnPtr('@vtable:' + nm)
    raise Unsupported('load from external ' + nm)


def sym_memcpy(E, d, s, n):
    so, do = s.obj, d.obj
    if so is not None and so.kind == 'symarr':
        return so.data.memcpy_from(E, d, s, n)
    if do is not None and do.kind == 'symarr':
        return do.data.memcpy_to(E, d, s, n)
    raise Unsupported('symbolic memcpy')


# ------------------------------------------------------------ exceptions
def resume(E, v):
    ptr = v[0]
    m = E.ghost.get('excs', {})
    e = m.get(ptr.obj.id)
    if e is None:
        raise Unsupported('resume of unknown exception')
    return e


BASES = {
    '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12out_of_range': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error',
    '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt18bad_variant_access': '_ZTISt9exception',
    '_ZTISt19bad_optional_access': '_ZTISt9exception',
    '_ZTISt12bad_any_cast': '_ZTISt8bad_cast',
    '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt17bad_function_call': '_ZTISt9exception',
}


def bases(E, ti):
    if ti in BASES:
        return [BASES[ti]]
    g = E.mod.globals.get(ti)
    if g is None:
        return []
    E.mod.resolve_global(g)
    if g.external or not isinstance(g.init_toks, ir.CAgg):
        return []
    out = []
    for t, c in g.init_toks.elts[2:]:
        if isinstance(c, ir.CGlobal) and c.name.startswith('_ZTI'):
            out.append(c.name)
        elif isinstance(c, ir.CExpr) and isinstance(c.args[0][1], ir.CGlobal):
            out.append(c.args[0][1].name)
    return out


def type_matches(E, ti, want):
    seen = [ti]
    while seen:
        t = seen.pop()
        if t == want:
            return True
        seen.extend(bases(E, t))
    return False


@model('__cxa_allocate_exception')
def _(E, a, n):
    o = E.new_obj(E.toint(a[0]) + 64, 'heap', 'exception')
    return Ptr(o, 0)


@model('__cxa_free_exception')
def _(E, a, n):
    return None


@model('__cxa_throw')
def _(E, a, n):
    e = CxxThrow(a[0], a[1].obj.name)
    E.ghost.setdefault('excs', {})[a[0].obj.id] = e
    raise e


@model('__cxa_begin_catch')
def _(E, a, n):
    E.caught.append(a[0])
    return a[0]


@model('__cxa_end_catch')
def _(E, a, n):
    if E.caught:
        E.caught.pop()


@model('__cxa_rethrow')
def _(E, a, n):
    raise E.ghost['excs'][E.caught[-1].obj.id]


@model('llvm.eh.typeid.for')
def _(E, a, n):
    return ('sel', a[0].obj.name)


@model('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual')
def _(E, a, n):
    raise Abort(n)


@model('__assert_fail')
def _(E, a, n):
    msg = cstr(E, a[0])
    E.ub('assert', 'assert(%s) reachable' % msg)


@pat(r'resim::AssertException::AssertException\(std::basic_string_view',
     note='resim::AssertException constructor (message formatting by fmt) does not fail and only sets what()')
def _(E, a, n):
    E.store(FnPtr('@vtable:AssertException'), a[0], ir.PTR)
    E.ghost['assert_line'] = a[5] if len(a) > 5 else None


@pat(r'resim::AssertException::~AssertException\(\)')
def _(E, a, n):
    return None


@pat(r'std::(invalid_argument|out_of_range|length_error|logic_error|runtime_error|exception|bad_alloc|overflow_error'
     r'|domain_error|range_error)::(~?)\w+\(', note='std exception constructors/destructors')
def _(E, a, n):
    return None


_THROWS = {'__throw_length_error': '_ZTISt12length_error', '__throw_logic_error': '_ZTISt11logic_error',
           '__throw_out_of_range': '_ZTISt12out_of_range', '__throw_out_of_range_fmt': '_ZTISt12out_of_range',
           '__throw_bad_alloc': '_ZTISt9bad_alloc', '__throw_bad_array_new_length': '_ZTISt9bad_alloc',
           '__throw_bad_variant_access': '_ZTISt18bad_variant_access',
           '__throw_bad_optional_access': '_ZTISt19bad_optional_access',
           '__throw_bad_function_call': '_ZTISt17bad_function_call',
           '__throw_bad_cast': '_ZTISt8bad_cast', '__throw_invalid_argument': '_ZTISt16invalid_argument'}


@pat(r'std::__throw_\w+\(')
def _(E, a, n):
    for k, ti in _THROWS.items():
        if ('%d%s' % (len(k), k)) in n:
            o = E.new_obj(64, 'heap', 'exception')
            e = CxxThrow(Ptr(o, 0), ti)
            E.ghost.setdefault('excs', {})[o.id] = e
            raise e
    raise Unsupported('throw helper ' + n)


def throw_type(E, ti):
    o = E.new_obj(64, 'heap', 'exception')
    e = CxxThrow(Ptr(o, 0), ti)
    E.ghost.setdefault('excs', {})[o.id] = e
    raise e


# ------------------------------------------------------------ memory
@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def _(E, a, n):
    sz = E.toint(a[0])
    if not isinstance(sz, int):
        return E.ctx.sym_alloc(E, sz)
    o = E.new_obj(sz, 'heap', 'heap%d' % sz)
    return Ptr(o, 0)


@model('_ZnwmSt11align_val_t')
def _(E, a, n):
    o = E.new_obj(E.toint(a[0]), 'heap', 'heap')
    return Ptr(o, 0)


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t')
def _(E, a, n):
    p = a[0]
    if isinstance(p, int) or p.obj is None:
        return None
    if not p.obj.alive:
        E.ub('double-free', 'double free')
    if p.obj.kind not in ('heap', 'symarr'):
        E.ub('bad-free', 'free of non-heap object %r' % p.obj)
    p.obj.alive = False


@model('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def _(E, a, n):
    k = E.toint(a[2])
    if isinstance(k, int) and k == 0:
        return a[0]
    E.memcpy(a[0], a[1], k)
    return a[0]


@model('llvm.memset', 'memset')
def _(E, a, n):
    k = E.toint(a[2])
    if isinstance(k, int) and k == 0:
        return a[0]
    o = E.check_access(a[0], k if isinstance(k, int) else 0, 'memset')
    if not isinstance(k, int) or not isinstance(a[0].off, int):
        raise Unsupported('symbolic memset')
    E.fill(o, a[0].off, k, E.toint(a[1]) & 255)
    return a[0]


@model('memcmp', 'bcmp')
def _(E, a, n):
    k = E.toint(a[2])
    if not isinstance(k, int):
        raise Unsupported('symbolic memcmp length')
    if k == 0:
        return 0
    E.check_access(a[0], k, 'memcmp')
    E.check_access(a[1], k, 'memcmp')
    xs = [E.toint(E.get(a[0].obj, a[0].off + i, 1)) for i in range(k)]
    ys = [E.toint(E.get(a[1].obj, a[1].off + i, 1)) for i in range(k)]
    if all(isinstance(v, int) for v in xs + ys):
        for x, y in zip(xs, ys):
            if x != y:
                return -1 if (x & 255) < (y & 255) else 1
        return 0
    return MemCmp(xs, ys)


def memcmp_eq(E, m):
    cs = []
    for x, y in zip(m.a, m.b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
            continue
        if x is y:
            continue
        cs.append(zc(z3.simplify(x == y)))
    return c_and(*cs)


def memcmp_int(E, m):
    if E.ctx.choose(memcmp_eq(E, m)):
        return 0
    r = z3.IntVal(0)
    for x, y in reversed(list(zip(m.a, m.b))):
        ux, uy = E.unsigned(x, 8), E.unsigned(y, 8)
        r = z3.If(ux == uy, r, z3.If(ux < uy, z3.IntVal(-1), z3.IntVal(1))) if not (
            isinstance(ux, int) and isinstance(uy, int)) else (r if ux == uy else z3.IntVal(-1 if ux < uy else 1))
    return r


def sym_strlen(E, p):
    i = 0
    while True:
        b = E.toint(E.get(p.obj, p.off + i, 1))
        if b is UNDEF:
            E.ub('uninit', 'strlen of uninitialised bytes')
        if isinstance(b, int):
            if b == 0:
                return i
        elif b.get_id() not in E.hexof and E.ctx.choose(zc(z3.simplify(b == 0))):
            return i
        i += 1
        E.check_access(Ptr(p.obj, p.off + i), 1, 'strlen')


def cstr(E, p):
    s = bytearray()
    i = 0
    while True:
        b = E.get(p.obj, p.off + i, 1)
        if not isinstance(b, int):
            raise Unsupported('symbolic C string')
        if b == 0:
            return s.decode('latin1')
        s.append(b & 255)
        i += 1


@model('strlen')
def _(E, a, n):
    E.check_access(a[0], 1, 'strlen')
    return sym_strlen(E, a[0])


@model('_ZSt11_Hash_bytesPKvmm', note='std::_Hash_bytes is a deterministic function of the bytes, their number and the seed')
def _(E, a, n):
    k = E.toint(a[1])
    bs = [E.toint(E.get(a[0].obj, a[0].off + i, 1)) for i in range(k)]
    f = z3.Function('hash_bytes_%d' % k, *([z3.IntSort()] * (k + 2)))
    r = f(*[z3.IntVal(b) if isinstance(b, int) else b for b in bs], z3.IntVal(E.toint(a[2])) if isinstance(E.toint(a[2]), int) else E.toint(a[2]))
    E.ctx.add_pc(zc(z3.And(r >= lo(64), r <= hi(64))))
    return r


# ------------------------------------------------------------ math
def _f(name):
    def g(E, a, n):
        x = E.real(a[0])
        return RL.fn(name, x)
    g.note = 'libm %s is the exact real function (finite inputs)' % name
    return g


for nm in ('sin', 'cos', 'tan', 'exp', 'log', 'atan', 'acos', 'asin'):
    EXACT[nm] = _f(nm)
    EXACT['llvm.' + nm] = EXACT[nm]


@model('sqrt', 'llvm.sqrt', note='sqrt is the exact real square root')
def _(E, a, n):
    x = E.real(a[0])
    if x.op == 'c' and x.a[0] < 0:
        E.ub('sqrt-domain', 'sqrt of negative constant')
    E.ctx.oblige(rc('ge', x), 'sqrt-domain', 'sqrt of a negative number' + E.where(), assume=True)
    r = RL.fn('sqrt', x)
    if E.ctx.rounding:
        r = E.ctx.round(r, 'sqrt', x, None)
    return r


@model('atan2', note='libm atan2 is the exact real function (finite inputs)')
def _(E, a, n):
    return RL.fn('atan2', E.real(a[0]), E.real(a[1]))


@model('llvm.fabs', 'fabs')
def _(E, a, n):
    x = E.real(a[0])
    if x.op in ('c',):
        return RL.const(abs(x.a[0]))
    if x.op == 'special':
        return RL.const(abs(float(x.a[0])))
    if E.ctx.choose(rc('ge', x)):
        return x
    return RL.neg(x)


@model('llvm.minnum', 'fmin')
def _(E, a, n):
    c = E.fcmp('olt', a[1], a[0])
    return a[1] if E.ctx.choose(c) else a[0]


@model('llvm.maxnum', 'fmax')
def _(E, a, n):
    c = E.fcmp('olt', a[0], a[1])
    return a[1] if E.ctx.choose(c) else a[0]


@model('llvm.fmuladd', 'llvm.fma', 'fma')
def _(E, a, n):
    return E.fop('+', E.fop('*', a[0], a[1]), a[2])


@model('floor', 'llvm.floor')
def _(E, a, n):
    x = E.real(a[0])
    if x.op == 'c':
        import math
        return RL.const(math.floor(x.a[0]))
    return RL.toreal(E.ctx.floor_int(x))


@model('ceil', 'llvm.ceil')
def _(E, a, n):
    x = E.real(a[0])
    if x.op == 'c':
        import math
        return RL.const(math.ceil(x.a[0]))
    return RL.toreal(-E.ctx.floor_int(RL.neg(x)))


@model('trunc', 'llvm.trunc')
def _(E, a, n):
    x = E.real(a[0])
    if x.op == 'c':
        return RL.const(int(x.a[0]))
    return RL.toreal(E.ctx.trunc_int(x))


@model('round', 'llvm.round')
def _(E, a, n):
    x = E.real(a[0])
    return RL.toreal(E.ctx.round_half_away(x))


@model('rint', 'nearbyint', 'llvm.rint', 'llvm.nearbyint', 'llvm.roundeven')
def _(E, a, n):
    x = E.real(a[0])
    return RL.toreal(E.ctx.round_nearest(x))


@model('llround', 'lround')
def _(E, a, n):
    x = E.real(a[0])
    r = E.ctx.round_half_away(x)
    E.ctx.oblige(zc(z3.And(r >= lo(64), r <= hi(64))) if not isinstance(r, int) else (lo(64) <= r <= hi(64)),
                 'fp-to-int', 'llround out of range', assume=True)
    return r


@model('llrint', 'lrint')
def _(E, a, n):
    r = E.ctx.round_nearest(E.real(a[0]))
    E.ctx.oblige(zc(z3.And(r >= lo(64), r <= hi(64))) if not isinstance(r, int) else (lo(64) <= r <= hi(64)),
                 'fp-to-int', 'llrint out of range', assume=True)
    return r


@model('hypot')
def _(E, a, n):
    x, y = E.real(a[0]), E.real(a[1])
    return RL.fn('sqrt', RL.add(RL.mul(x, x), RL.mul(y, y)))


@model('pow', 'llvm.pow', 'llvm.powi')
def _(E, a, n):
    y = a[1] if isinstance(a[1], int) else E.real(a[1])
    x = E.real(a[0])
    k = y if isinstance(y, int) else (y.a[0] if y.op == 'c' else None)
    if isinstance(k, int) and 0 <= k <= 16:
        return x ** k
    if k is not None and k * 2 == 1:
        return RL.fn('sqrt', x)
    raise Unsupported('pow')


@model('llvm.copysign', 'copysign')
def _(E, a, n):
    x, y = E.real(a[0]), E.real(a[1])
    ax = x if E.ctx.choose(rc('ge', x)) else RL.neg(x)
    return ax if E.ctx.choose(rc('ge', y)) else RL.neg(ax)


@model('llvm.is.fpclass')
def _(E, a, n):
    x = E.real(a[0])
    m = a[1]
    if x.op == 'special':
        v = float(x.a[0])
        if v != v:
            return bool(m & 3)
        return bool(m & (0x200 if v > 0 else 0x4))
    return bool(m & 0x1f8)


@model('isfinite', '__finite')
def _(E, a, n):
    return 1


# overflow intrinsics
def _ovf(op):
    def g(E, a, n):
        w = int(re.search(r'\.i(\d+)$', n).group(1))
        x, y = E.toint(a[0]), E.toint(a[1])
        signed = n.startswith('llvm.s')
        if not signed:
            x, y = E.unsigned(x, w), E.unsigned(y, w)
        r = op(x, y)
        l, h = (lo(w), hi(w)) if signed else (0, (1 << w) - 1)
        if isinstance(r, int):
            return (wrapc(r, w), not (l <= r <= h))
        o = zc(z3.Or(r < l, r > h))
        # fork so that the value is exact when no overflow happened
        if E.ctx.choose(o):
            return (E.ctx.fresh_int('ovf', lo(w), hi(w)), True)
        return (r if signed else E.wrap(r, w), False)
    return g


for s in 'su':
    EXACT['llvm.%sadd.with.overflow' % s] = _ovf(lambda x, y: x + y)
    EXACT['llvm.%ssub.with.overflow' % s] = _ovf(lambda x, y: x - y)
    EXACT['llvm.%smul.with.overflow' % s] = _ovf(lambda x, y: x * y)


@model('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def _(E, a, n):
    w = int(re.search(r'\.i(\d+)$', n).group(1))
    p = 'ult' if '.umin' in n else 'ugt' if '.umax' in n else 'slt' if '.smin' in n else 'sgt'
    return a[0] if E.ctx.choose(E.tobool(E.icmp(p, a[0], a[1], w))) else a[1]


@model('llvm.abs')
def _(E, a, n):
    x = E.toint(a[0])
    w = int(re.search(r'\.i(\d+)$', n).group(1))
    if isinstance(x, int):
        return wrapc(abs(x), w)
    if E.ctx.choose(zc(x >= 0)):
        return x
    return E._sym(-x, w, True, 'abs')


@model('llvm.expect', 'llvm.launder.invariant.group', 'llvm.strip.invariant.group', 'llvm.ssa.copy')
def _(E, a, n):
    return a[0]


@model('llvm.stacksave')
def _(E, a, n):
    return NULL


@model('llvm.stackrestore', 'llvm.va_start', 'llvm.va_end', 'llvm.trap')
def _(E, a, n):
    if n == 'llvm.trap':
        raise Abort('trap')
    return None


@model('llvm.is.constant')
def _(E, a, n):
    return False


@model('llvm.objectsize')
def _(E, a, n):
    return -1


@pat(r'__gthread_active_p\(\)|std::__is_single_threaded\(\)')
def _(E, a, n):
    return False if 'single' not in n else True


@model('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def _(E, a, n):
    return 0


@model('llvm.invariant.start', 'llvm.invariant.end')
def _(E, a, n):
    return NULL


@model('__cxa_guard_acquire')
def _(E, a, n):
    g = a[0]
    v = E.get(g.obj, g.off, 1)
    if v == 1:
        return 0
    E.put(g.obj, g.off, 1, 1)
    return 1


@model('pthread_self')
def _(E, a, n):
    return 1


@pat(r'std::allocator<(char|wchar_t)>::~?allocator\(')
def _(E, a, n):
    return None


# dynamic init of iostreams etc.
@pat(r'std::ios_base::Init::~?Init\(\)')
def _(E, a, n):
    return None


# ------------------------------------------------------------ libuuid
@model('uuid_generate', 'uuid_generate_random', note='libuuid uuid_generate writes 16 bytes, not all zero and never the same ones again')
def _(E, a, n):
    new = [E.ctx.fresh_int('uuidgen', -128, 127) for i in range(16)]
    old = E.ghost.setdefault('uuids', [])
    E.ctx.assume(z3.Or(*[x != 0 for x in new]))
    for o in old:
        E.ctx.assume(z3.Or(*[x != y for x, y in zip(new, o)]))
    E.ghost['uuids'] = old + [new]
    for i in range(16):
        E.put(a[0].obj, a[0].off + i, 1, new[i])


@model('uuid_is_null', note='libuuid uuid_is_null is 1 when all 16 bytes are zero and 0 otherwise')
def _(E, a, n):
    E.check_access(a[0], 16, 'uuid_is_null')
    xs = [E.toint(E.get(a[0].obj, a[0].off + i, 1)) for i in range(16)]
    if any(isinstance(x, int) and x != 0 for x in xs):
        return 0
    cs = [x == 0 for x in xs if not isinstance(x, int)]
    return 1 if not cs or E.ctx.choose(zc(z3.And(*cs))) else 0


@model('uuid_compare', note='libuuid uuid_compare is zero exactly for equal bytes')
def _(E, a, n):
    return EXACT['memcmp'](E, [a[0], a[1], 16], n)


@model('uuid_copy', note='libuuid uuid_copy copies the 16 bytes')
def _(E, a, n):
    E.check_access(a[1], 16, 'uuid_copy')
    E.check_access(a[0], 16, 'uuid_copy')
    xs = [E.get(a[1].obj, a[1].off + i, 1) for i in range(16)]
    for i, x in enumerate(xs):
        E.put(a[0].obj, a[0].off + i, 1, x)


@model('uuid_clear', note='libuuid uuid_clear zeroes the 16 bytes')
def _(E, a, n):
    E.check_access(a[0], 16, 'uuid_clear')
    for i in range(16):
        E.put(a[0].obj, a[0].off + i, 1, 0)


# ------------------------------------------------------------ fmt
DECIMAL = z3.Function('decimal_text', z3.IntSort(), z3.IntSort())


def put_string(E, p, chars):
    """construct a std::string holding the given characters at p"""
    n = len(chars)
    if n <= 15:
        d = Ptr(p.obj, p.off + 16)
    else:
        d = Ptr(E.new_obj(n + 1, 'heap', 'string'), 0)
        E.put(p.obj, p.off + 16, 8, n)
    for i, ch in enumerate(chars):
        E.put(d.obj, d.off + i, 1, ch)
    E.put(d.obj, d.off + n, 1, 0)
    E.store(d, p, ir.PTR)
    E.put(p.obj, p.off + 8, 8, n)


def text_of(E, p, n):
    n = E.toint(n)
    if not isinstance(n, int):
        raise Unsupported('symbolic string length')
    if n:
        E.check_access(p, n, 'string read')
    return [E.get(p.obj, p.off + i, 1) for i in range(n)]


@pat(r'fmt::v\d+::vformat(\[abi:cxx11\])?\(fmt::v\d+::basic_string_view<char>', note='fmt::vformat replaces {i} by the text of argument i '
     '(an integer is written in decimal: an uninterpreted text of the value)')
def _(E, a, n):
    f = text_of(E, a[1], a[2])
    if not all(isinstance(x, int) for x in f):
        raise Unsupported('symbolic format string')
    f = bytes(x & 255 for x in f).decode('latin1')
    desc = E.toint(a[3])
    if desc < 0:
        raise Unsupported('unpacked format arguments')
    args = []
    i = 0
    while desc >> (4 * i):
        ty = (desc >> (4 * i)) & 15
        p = Ptr(a[4].obj, a[4].off + 16 * i)
        if ty in (1, 2):
            v = E.toint(E.load(p, ir.IntTy(32)))
            args.append(v if ty == 1 else E.unsigned(v, 32))
        elif ty in (3, 4):
            v = E.toint(E.load(p, ir.IntTy(64)))
            args.append(v if ty == 3 else E.unsigned(v, 64))
        elif ty == 12:
            q = E.load(p, ir.PTR)
            args.append(text_of(E, q, sym_strlen(E, q)))
        elif ty == 13:
            args.append(text_of(E, E.load(p, ir.PTR), E.load(Ptr(p.obj, p.off + 8), ir.IntTy(64))))
        else:
            raise Unsupported('fmt argument type %d' % ty)
        i += 1
    out = []
    auto = 0
    i = 0
    while i < len(f):
        ch = f[i]
        if ch in '{}' and f[i:i + 2] in ('{{', '}}'):
            out.append(ord(ch))
            i += 2
            continue
        if ch == '{':
            j = f.index('}', i)
            spec = f[i + 1:j]
            if spec == '':
                v = args[auto]
                auto += 1
            elif spec.isdigit():
                v = args[int(spec)]
            else:
                raise Unsupported('fmt specification {%s}' % spec)
            if isinstance(v, list):
                out += v
            else:
                out += list(str(v).encode()) if isinstance(v, int) else [DECIMAL(v)]
            i = j + 1
            continue
        out.append(ord(ch))
        i += 1
    put_string(E, a[0], out)


@pat(r'(std::__cxx11::|std::)to_string\((int|unsigned int|long|unsigned long|long long|unsigned long long)\)', note='std::to_string writes an integer in decimal: '
     'an uninterpreted text of the value')
def _(E, a, n):
    v = E.toint(a[1])
    m = re.search(r'unsigned( int| long)?', n)
    if m:
        v = E.unsigned(v, 32 if m.group(0) == 'unsigned int' else 64)
    put_string(E, a[0], list(str(v).encode()) if isinstance(v, int) else [DECIMAL(v)])


@pat(r'(std::.*string.* )?fmt::v\d+::format<.*>\(fmt::v\d+::text_style const&', note='fmt::format with a text style returns some text')
def _(E, a, n):
    put_string(E, a[0], list(b'styled text'))


DASH = (8, 13, 18, 23)


@model('uuid_unparse_lower', 'uuid_unparse', note='libuuid uuid_unparse(_lower) writes the canonical lower-case text and a terminating 0')
def _(E, a, n):
    E.check_access(a[0], 16, 'uuid_unparse read')
    E.check_access(a[1], 37, 'uuid_unparse write')
    pos = 0
    for i in range(16):
        raw = E.toint(E.get(a[0].obj, a[0].off + i, 1))
        b = E.unsigned(raw, 8)
        for half, nb in enumerate((b // 16, b % 16) if isinstance(b, int) else (b / 16, b % 16)):
            if pos in DASH:
                E.put(a[1].obj, a[1].off + pos, 1, 45)
                pos += 1
            if isinstance(nb, int):
                ch = ord('0123456789abcdef'[nb])
            else:
                ch = z3.If(nb < 10, 48 + nb, 87 + nb)
                E.hexof[ch.get_id()] = (ch, raw, half)       # a hexadecimal digit of raw
            E.put(a[1].obj, a[1].off + pos, 1, ch)
            pos += 1
    E.put(a[1].obj, a[1].off + 36, 1, 0)


@model('uuid_parse', note='libuuid uuid_parse accepts exactly the 36-character hyphenated hexadecimal texts (either case), yields '
       'their bytes and returns 0; otherwise it returns -1')
def _(E, a, n):
    E.check_access(a[1], 16, 'uuid_parse write')
    if sym_strlen(E, a[0]) != 36:
        return -1
    cs = [E.toint(E.get(a[0].obj, a[0].off + i, 1)) for i in range(36)]
    ok, nib = [], []
    for i, ch in enumerate(cs):
        if i in DASH:
            ok.append(ch == 45)
            continue
        if isinstance(ch, int):
            v = '0123456789abcdef'.find(chr(ch & 255).lower())
            ok.append(v >= 0)
            nib.append(v)
        elif ch.get_id() in E.hexof:
            nib.append(E.hexof[ch.get_id()])
        else:
            dg, lw, up = z3.And(ch >= 48, ch <= 57), z3.And(ch >= 97, ch <= 102), z3.And(ch >= 65, ch <= 70)
            ok.append(z3.Or(dg, lw, up))
            nib.append(z3.If(dg, ch - 48, z3.If(lw, ch - 87, ch - 55)))
    if any(q is False for q in ok):
        return -1
    sy = [q for q in ok if q is not True]
    if sy and not E.ctx.choose(zc(z3.And(*sy))):
        return -1
    for i in range(16):
        h, l = nib[2 * i], nib[2 * i + 1]
        if isinstance(h, tuple) and isinstance(l, tuple) and h[1] is l[1] and (h[2], l[2]) == (0, 1):
            v = h[1]                        # both digits of one byte
        else:
            u = [E.unsigned(q[1], 8) if isinstance(q, tuple) else q for q in (h, l)]
            u = [(x / 16 if q[2] == 0 else x % 16) if isinstance(q, tuple) else x for x, q in zip(u, (h, l))]
            v = E.wrap(16 * u[0] + u[1], 8)
        E.put(a[1].obj, a[1].off + i, 1, v)
    return 0


@model('ghost_emit')
def _(E, a, n):
    em = E.ghost.setdefault('emit', [])
    ev = tuple(E.real(v) for v in a[:4]) + tuple(E.toint(v) for v in a[4:])
    if E.ctx.on_emit is not None:
        E.ctx.on_emit(E.ghost.get('emit_base', 0) + len(em), ev)
    em.append(ev)
    return None


# ------------------------------------------------------------ Eigen
@pat(r'(double|.* )?Eigen::MatrixBase<.*>::stableNorm\(\) const$',
     note='Eigen stableNorm() equals norm() over the reals')
def _(E, a, n):
    m = n.replace('10stableNormEv', '4normEv')
    if m == n:
        raise Unsupported('stableNorm')
    return E.call(m, a)
