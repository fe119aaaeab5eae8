"""Statuses and value-or-status results."""
import itertools
import z3
from irv.engine import Unsupported
from .registry import Property

P = Property('C24', ['h_status.cc'])
UNINIT = object()
VALUE = object()


def texts(c, j, lens=(3, 4)):
    """file and message of error origin j, NUL-terminated in 8 bytes each"""
    out, raw = [], []
    for w, n in zip(('f', 'm'), lens):
        if c.symbolic:
            t = [c.int('%s%d.%d' % (w, j, i), 1, 127) for i in range(n)]
        else:
            t = [c.int('%s%d.%d' % (w, j, i), 1, 127, special=b'{}<>:% a') for i in range(n)]
        raw.append(t)
        out += t + [0] * (8 - n)
    return out, raw


def dec(c, v):
    if c.symbolic and not isinstance(v, int):
        f = z3.Function('decimal_text', z3.IntSort(), z3.IntSort())
        return [f(v)]
    return list(str(v).encode())


def same_text(c, ln, bo, off, w, lab):
    """the text bo of length ln is w (the text of an integer is one uninterpreted piece of text)"""
    if c.symbolic:
        is_dec = lambda x: z3.is_expr(x) and x.decl().name() == 'decimal_text'
        if any(map(is_dec, w)) and isinstance(ln, int) and not any(is_dec(bo[off + i]) for i in range(ln)):
            raise Unsupported('the number is not written in decimal by a function with a contract')
    c.ieq(ln, len(w), lab + 'length of what()')
    for i, ch in enumerate(w):
        c.ieq(bo[off + i], ch, lab + 'what()[%d]' % i)


class Errs:
    def __init__(self, c):
        self.lines = [c.int('line%d' % j, -(1 << 31), (1 << 31) - 1, special=(0, 1, -1)) for j in range(3)]
        self.b, self.raw = [], []
        for j, ln in enumerate(((3, 4), (0, 7), (7, 0))):
            o, r = texts(c, j, ln)
            self.b += o
            self.raw.append(r)

    def what(self, c, j):
        f, m = self.raw[j]
        return [60] + f + [58] + dec(c, self.lines[j]) + [62, 32] + m


def check(c, ok, ln, bo, off, exp, E, lab):
    """exp: None okay, int error origin, UNINIT any error"""
    c.ieq(ok, int(exp is None), lab + ': ok()')
    if exp is None:
        w = list(b'OKAY')
    elif exp is UNINIT:
        return
    else:
        w = E.what(c, exp)
    same_text(c, ln, bo, off, w, lab + ': ')


ALLOPS = [(0, None), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (4, 0), (4, 1), (5, None)]


def status_histories(n):
    steps = [(op, d, r) for op, r in ALLOPS for d in (0, 1)]
    return itertools.product(steps, repeat=n)


GROUPS = {}
for _h in status_histories(2):
    GROUPS.setdefault(_h[0], []).append(_h)


for _g, _hs in GROUPS.items():
    @P.contract('statuses after every two-step history beginning with operation %d on %d from %s' % _g, name='status_history[%d,%d,%s]' % _g,
                bound='histories of at most 2 operations on 3 statuses after initialisation')
    def status_history(c, hs=_hs):
        E = Errs(c)
        if not c.symbolic:
            hs = [c.rng.choice(hs)]
        for h in hs:
            # start: slot 0 okay, slot 1 error 1, slot 2 error 2
            ops = [(1, 1, 1), (1, 2, 2)] + [(o, d, r or 0) for o, d, r in h]
            st = [None, None, None]
            for o, d, r in ops:
                if o in (0, 5):
                    st[d] = None
                elif o == 1:
                    st[d] = r
                elif o == 3 and d != r:
                    st[d] = st[r]
                    st[r] = 'moved'
                elif o in (2, 4):
                    st[d] = st[r]
            if any(x == 'moved' for x in st) and any(h[1][0] in (2, 3, 4) and h[0][0] == 3 and h[1][2] == h[0][2] for _ in (0,)):
                continue        # reads a moved-from status
            out = c.call('h_status', k=E.lines + [len(ops)] + [v for q in ops for v in q], b=E.b, nio=6, nbo=120)
            c.no_throw(out)
            for i in range(3):
                if st[i] != 'moved':
                    check(c, out.io[2 * i], out.io[2 * i + 1], out.bo, 40 * i, st[i], E, '%s slot %d' % (h, i))


SVOPS = [(0, None), (1, 0), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (4, 0), (4, 2), (5, None), (6, 0), (7, 1), (8, 1), (8, 2), (9, 0), (9, 1), (9, 2)]
SVG = {}
for _a in [(op, d, r) for op, r in SVOPS for d in (0, 1)]:
    SVG[_a] = [(_a, (op, d, r)) for op, r in SVOPS for d in (0, 2)]


for _e in ('h_sv_int', 'h_sv_str'):
    for _g, _hs in SVG.items():
        @P.contract('%s results after every two-step history beginning with operation %d on %d from %s' % ((('integer' if _e == 'h_sv_int' else 'string'),) + _g),
                    name='%s_history[%d,%d,%s]' % ((_e[2:],) + _g), bound='histories of at most 2 operations on 3 results after initialisation')
        def sv_history(c, hs=_hs, e=_e):
            E = Errs(c)
            vs = [c.int('v%d' % i, *((1, 127) if e == 'h_sv_str' else ())) for i in range(3)]
            if not c.symbolic:
                hs = [c.rng.choice(hs)]
            for h in hs:
                # start: slot 0 holds value 2, slot 1 error 1, slot 2 uninitialised
                ops = [(6, 0, 2), (1, 1, 1)] + [(o, d, r or 0) for o, d, r in h]
                st = [UNINIT, UNINIT, UNINIT]
                thrown = 0
                skip = False
                for i, (o, d, r) in enumerate(ops):
                    if o in (2, 3, 4, 8, 9) and st[r] == 'moved':
                        skip = True
                        break
                    if o == 0:
                        st[d] = UNINIT
                    elif o == 1:
                        st[d] = r
                    elif o in (2, 4):
                        st[d] = st[r]
                    elif o in (3, 8):
                        if d == r and o == 3:
                            st[d] = 'moved'    # self-move: valid but unspecified
                        else:
                            x = st[r]
                            st[r] = 'moved'
                            st[d] = x
                    elif o == 5:
                        thrown += 1 << i
                    elif o in (6, 7):
                        st[d] = (VALUE, r)
                    else:
                        if isinstance(st[r], tuple):
                            thrown += 1 << i
                        else:
                            st[d] = st[r]
                if skip:
                    continue
                out = c.call(e, k=E.lines + [len(ops)] + [v for q in ops for v in q] + [0] * (20 - 4 - 3 * len(ops)) + vs, b=E.b, nio=16, nbo=120)
                c.no_throw(out)
                c.ieq(out.io[0], thrown, '%s: results cannot be built from an okay status' % (h,))
                for i in range(3):
                    q = [out.io[j] for j in range(1 + 5 * i, 6 + 5 * i)] if st[i] != 'moved' else None
                    lab = '%s slot %d' % (h, i)
                    if st[i] == 'moved':
                        continue
                    good = isinstance(st[i], tuple)
                    c.ieq(q[0], int(good), lab + ': ok()')
                    check(c, q[1], q[2], out.bo, 40 * i, None if good else st[i], E, lab + ' status')
                    x = vs[st[i][1]] if good else -2000
                    c.ieq(q[3], x, lab + ': value, or throws')
                    c.ieq(q[4], x, lab + ': moved value, or throws')


for _g in (0, 1):
    @P.contract('results holding references (%s)' % ('good' if _g else 'bad'), name='reference_value[%d]' % _g)
    def reference_value(c, g=_g):
        E = Errs(c)
        v, w = c.int('v'), c.int('w')
        o = c.call('h_sv_ref', k=E.lines + [g, v, w], b=E.b, nio=11, nbo=80)
        c.no_throw(o)
        c.ieq(o.io[0], g, 'ok')
        c.ieq(o.io[1], g, 'ok (const)')
        check(c, o.io[2], o.io[3], o.bo, 0, None if g else 0, E, 'status')
        check(c, o.io[4], o.io[5], o.bo, 40, None if g else 1, E, 'status (const)')
        c.ieq(o.io[10], 0 if g else 2, 'throws exactly when bad')
        if g:
            for i, e in ((6, 1), (7, w), (8, 1), (9, w)):
                c.ieq(o.io[i], e, 'reference observation %d' % i)

    @P.contract('results holding move-only values (%s)' % ('good' if _g else 'bad'), name='move_only_value[%d]' % _g)
    def move_only_value(c, g=_g):
        E = Errs(c)
        v = c.int('v')
        o = c.call('h_sv_move', k=E.lines + [g, v], b=E.b, nio=5)
        c.no_throw(o)
        c.ieq(o.io[0], g, 'ok')
        c.ieq(o.io[1], g, 'ok after the move')
        c.ieq(o.io[2], 1 - g, 'throws exactly when bad')
        if g:
            c.ieq(o.io[3], v, 'value')
            c.ieq(o.io[4], v, 'moved value')

    @P.contract('early-return and assertion helpers act exactly when the status is bad (%s)' % ('good' if _g else 'bad'), name='helpers[%d]' % _g)
    def helpers(c, g=_g):
        E = Errs(c)
        B = 1 << 61
        v, w = c.int('v', -B, B), c.int('w', -B, B)
        o = c.call('h_status_macros', k=E.lines + [g, v, w], b=E.b, nio=21, nbo=160)
        c.no_throw(o)
        io = o.io
        for i, n in ((0, 'return if bad'), (4, 'return if bad, value'), (9, 'return or assign'), (14, 'return or assign, lvalue')):
            c.ieq(io[i], 1, n + ': evaluated once')
            c.ieq(io[i + 1], g, n + ': continues exactly when okay')
        check(c, io[2], io[3], o.bo, 0, 1 if g else 2, E, 'returned status')
        check(c, io[6], io[7], o.bo, 40, None if g else 2, E, 'returned result')
        c.ieq(io[8], w if g else -2000, 'returned value')
        check(c, io[11], io[12], o.bo, 80, None if g else 2, E, 'assigned result')
        c.ieq(io[13], v - 1 if g else -2000, 'assigned value')
        check(c, io[16], io[17], o.bo, 120, None if g else 2, E, 'assigned lvalue')
        c.ieq(io[18], 1 - g, 'assertion helper throws exactly when bad')
        c.ieq(io[20], g, 'assertion helper continues exactly when okay')

    @P.contract('the assigning helper on temporaries, moved results and references (%s)' % ('good' if _g else 'bad'), name='assign_helper[%d]' % _g)
    def assign_helper(c, g=_g):
        E = Errs(c)
        B = 1 << 61
        v = c.int('v', -B, B)
        o = c.call('h_status_macros2', k=E.lines + [g, v], b=E.b, nio=20, nbo=160)
        c.no_throw(o)
        for i, (n, d) in enumerate((('owned temporary', 0), ('moved result', 0), ('text temporary', 113), ('reference', 1))):
            c.ieq(o.io[5 * i], 1, n + ': evaluated once')
            c.ieq(o.io[5 * i + 1], g, n + ': continues exactly when okay')
            check(c, o.io[5 * i + 2], o.io[5 * i + 3], o.bo, 40 * i, None if g else 2, E, n)
            c.ieq(o.io[5 * i + 4], v + d if g else -2000, n + ': value')


@P.contract('the status-making helper records its own file and line')
def made_here(c):
    o = c.call('h_status_macro_make', nio=5, nbo=40)
    c.no_throw(o)
    c.ieq(o.io[0], 0, 'is an error')
    c.ieq(o.io[1], o.io[3] + (5 + len(dec(c, o.io[2] if c.symbolic else int(o.io[2])))), 'length of the text')
    c.ieq(o.io[4], 1, 'file')


for _f, _m in ((40, 90), (17, 300), (130, 60), (70, 700), (300, 1000)):
    for _h in (0, 1):
        @P.contract('an error status with a file name of %d and a message of %d characters reports both in full (%s)' % (_f, _m, ('status', 'result')[_h]),
                    name='long[%d,%d,%d]' % (_f, _m, _h))
        def long_texts(c, nf=_f, nm=_m, h=_h):
            line = c.int('line', -(1 << 31), (1 << 31) - 1, special=(0, 1, -1, 1 << 20))
            f = [c.int('f%d' % i, 1, 127) for i in range(nf)]
            m = [c.int('m%d' % i, 1, 127) for i in range(nm)]
            o = c.call('h_status_long', k=[line, nf + 1, h], b=f + [0] + m + [0], nio=2, nbo=1400)
            c.no_throw(o)
            c.ieq(o.io[0], 0, 'is an error')
            w = [60] + f + [58] + dec(c, line) + [62, 32] + m
            same_text(c, o.io[1], o.bo, 0, w, '')
