"""Contracts: written once, run symbolically (over the IR) or concretely
(against the natively compiled code).

A contract is a Python function f(c): it draws inputs from c, calls harness
entry points through c.call and states its postconditions with c.eq /
c.holds / c.throws.  In symbolic mode the function is executed once per path
and every postcondition and every definedness condition met on the way is a
proof obligation for all inputs."""
import math
import os
import random
import re
import sys
import time
from fractions import Fraction
import numpy as np
import z3
from . import ir
from . import reals as RL
from . import models as MODELS
from .reals import R, Cond, rc, zc, c_not, c_and, c_or, c_z3, Algebra, Num, NoNum, NormLimit, SpecialFloat
from .engine import Engine, Unsupported, PathEnd, CxxThrow, Abort, UNDEF, Ptr, NULL, BI

NS = 96   # samples in the pool
DEG = range(3, NS, 4)      # samples with degenerate or coincident vectors


class Discard(Exception):
    pass


class Out:
    __slots__ = ('kind', 'exc', 'o', 'io', 'bo', 'ghost', 'nghost')

    def ret(self):
        return self.kind == 'ret'


class Failure:
    def __init__(self, kind, msg, status, sample, path, detail=''):
        self.kind = kind
        self.msg = msg
        self.status = status    # 'refuted' | 'unknown'
        self.sample = sample    # dict name->value or None
        self.path = path
        self.detail = detail

    def __repr__(self):
        return '%s[%s] %s' % (self.kind, self.status, self.msg)


class Timeout(Exception):
    pass


EXC_NAMES = {'_ZTIN5resim15AssertExceptionE': 'assert', '_ZTISt16invalid_argument': 'invalid_argument'}


class Common:
    """Helpers shared by both modes."""
    symbolic = False

    # --- structured inputs
    def vec(self, name, n=3, **kw):
        return [self.real('%s%d' % (name, i), **kw) for i in range(n)]

    def rot(self, name):
        return self.rotq(self.quat(name))

    @staticmethod
    def rotq(q):
        w, x, y, z = q
        return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]

    def mat(self, name, n, m, **kw):
        return [[self.real('%s_%d%d' % (name, i, j), **kw) for j in range(m)] for i in range(n)]

    def eqv(self, a, b, label, tol=None):
        assert len(a) == len(b), label
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(x, y, '%s[%d]' % (label, i), tol)

    def eqm(self, a, b, label, tol=None):
        for i, (x, y) in enumerate(zip(a, b)):
            self.eqv(x, y, '%s[%d]' % (label, i), tol)

    def nearv(self, a, b, label, **kw):
        for i, (x, y) in enumerate(zip(a, b)):
            self.near(x, y, '%s[%d]' % (label, i), **kw)

    def nearm(self, a, b, label, **kw):
        for i, (x, y) in enumerate(zip(a, b)):
            self.nearv(x, y, '%s[%d]' % (label, i), **kw)

    def no_throw(self, out, label='does not throw'):
        if out.kind != 'ret':
            self.holds(False, '%s (got %s %s)' % (label, out.kind, out.exc))
            raise PathEnd('throw')

    def throws(self, out, label, exc=None):
        if out.kind != 'throw' or (exc is not None and out.exc != exc):
            self.holds(False, '%s (got %s %s)' % (label, out.kind, out.exc))
            raise PathEnd('nothrow')
        self.holds(True, label)

    def throws_iff(self, out, cond, label, exc='assert'):
        """Exactly when cond (decided on inputs) the call throws; returns True when it threw as it should."""
        if self.branch(cond):
            self.throws(out, label + ': throws when it must', exc)
            return True
        self.no_throw(out, label + ': does not throw otherwise')
        return False


class SymCtx(Common):
    symbolic = True

    def __init__(self, run, decisions):
        self.run = run
        self.alg = run.alg
        self.dec = list(decisions)
        self.inherited = len(decisions)
        self.pos = 0
        self.pc = []
        self.subs = {}
        self.pool_ok = True
        self.alive = np.ones(NS, bool)
        self.num = Num(run.env, run.userfn)
        self.S = z3.Solver()
        self.S.set('timeout', 1500)
        self.nf_ = 0
        self.rounding = run.opts.get('rounding', False)
        self.loop_specs = []
        self.on_emit = None
        self.on_div = None
        self.on_int = None
        self.monos = {}
        self.bounds = {}
        self.abstract = False
        self.separable = False
        self.pre = ''
        self.last_soft = False
        self.qcache = {}
        self.cuts = {}
        self.E = Engine(run.mod, self, MODELS)
        self.E.overrides = run.overrides
        self.E._ov = run.ovcache
        self.path_end = None
        self.hasreal = False

    # ---------------------------------------------------------------- notes
    def note_function(self, f):
        self.run.functions[f.demangled] = self.run.functions.get(f.demangled, 0) + 1

    def note_assumed(self, s):
        self.run.assumed.add(s)

    def note_contract(self, s):
        self.run.callee_contracts.add(s)

    # ---------------------------------------------------------------- loops
    def loop(self, func, *alts):
        """Loop contract: every loop of a function whose demangled name matches func is cut at its header.
        alts: (roles, inv) with roles a list of variable-name prefixes and inv(v) -> [(label, condition)], v.<role> the value
        at the header and v.n the number of emitted events so far.  Values are matched to roles by name, then by trying
        every assignment; without an inductive one the run is undecided."""
        self.loop_specs.append((re.compile(func), alts))

    def loops_of(self, f):
        for rx, alts in self.loop_specs:
            if rx.search(f.demangled):
                hs = loop_headers(f)
                return {b: (lambda Rg, b=b, ph=ph: self.cut(f, b, ph, alts, Rg)) for b, ph in hs.items()}
        return None

    def cut(self, f, b, ph, alts, Rg):
        E = self.E
        key = (f.name, b)
        run = self.run
        cands = run.loopcands.get(key)
        if cands is None:
            cands = run.loopcands[key] = loop_candidates(ph, alts)
        ch = run.loopchoice.get(key, 0)
        if ch >= len(cands):
            raise Unsupported('no inductive loop invariant found in ' + f.demangled[:60])
        assign, ai = cands[ch]
        inv = alts[ai][1]

        class V:
            pass

        def values():
            v = V()
            for role, j in assign.items():
                x = Rg[ph[j][0]]
                setattr(v, role, E.real(x) if ph[j][2].k == 'double' else E.toint(x))
            v.n = E.ghost.get('emit_base', 0) + len(E.ghost.get('emit', ()))
            return v

        def check(where):
            for lab, c in inv(values()):
                c = self._c(c)
                if self.pos < self.inherited or c is True:
                    continue
                run.tick()
                run.nobl += 1
                st, sm, how = self.prove(c)
                if st != 'proved':
                    if os.environ.get('IRV_LOOP'):
                        print('loop candidate', ch, {r: ph[j][1] for r, j in assign.items()}, lab, where, st, c, sm, file=sys.stderr)
                        if os.environ['IRV_LOOP'] == '2':
                            for x in self.pc:
                                print('     ', x, file=sys.stderr)
                    run.loopchoice[key] = ch + 1
                    if ch + 1 < len(cands):
                        raise Restart()
                    raise Unsupported('loop invariant "%s" not %s in %s' % (lab, where, f.demangled[:60]))
                run.nproved += 1
                run.by[how] = run.by.get(how, 0) + 1
        st = self.cuts.get((id(Rg), b))
        if st is None:
            check('established')
            E.gc_track()
            snap = [(o, dict(o.cells)) for o in E.tracked if o.alive]
            for (on, off) in run.loopmod.get(key, ()):
                for o, _ in snap:
                    if o.name == on and off in o.cells:
                        E.kill_cell(o, off)
            self.cuts[(id(Rg), b)] = ([(o, dict(o.cells)) for o, _ in snap], Rg)
            for reg, nm, ty in ph:
                if ty.k == 'int':
                    Rg[reg] = self.fresh_int('loop.' + nm, -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1) \
                        if ty.bits > 1 else zc(z3.Bool('f!loop.%s!%d' % (nm, self.nf_)))
                elif ty.k == 'double':
                    Rg[reg] = self.fresh_real('loop.' + nm)
                else:
                    raise Unsupported('loop-carried %s' % ty.k)
            self.abstract = True
            if self.on_emit is not None:
                E.ghost['emit_base'] = self.fresh_int('emitted', 0, (1 << 64))
                E.ghost['emit'] = []
            for lab, c in inv(values()):
                self.add_pc(self._c(c)) if not isinstance(self._c(c), bool) else self._need(c)
            return
        check('preserved')
        mods = set()
        for o, cells in st[0]:
            if o.alive and o.cells != cells:
                for off in set(o.cells) | set(cells):
                    x, y = o.cells.get(off), cells.get(off)
                    if x is not y and not same_cell(x, y):
                        mods.add((o.name, off))
        new = mods - run.loopmod.get(key, set())
        if new:
            run.loopmod.setdefault(key, set()).update(new)
            raise Restart()
        raise PathEnd('loop cut')

    def _need(self, c):
        if self._c(c) is False:
            raise PathEnd('infeasible')

    # ---------------------------------------------------------------- inputs
    def _pool(self, name, gen):
        if name not in self.run.env:
            self.run.env[name] = gen()
        self.run.inputs.setdefault(name, None)

    def real(self, name, lo=-10.0, hi=10.0, special=(0.0, 1.0, -1.0), nonneg=False, pos=False, bounded=False):
        name = self.pre + name
        if nonneg and lo < 0:
            lo = 0.0
        if pos and lo <= 0:
            lo = 1e-3
        rng = self.run.rng

        def gen():
            v = np.array([rng.uniform(lo, hi) for _ in range(NS)])
            sp = [s for s in special if lo <= s <= hi and (not pos or s > 0)]
            for i in range(0, NS, 5):
                if sp:
                    v[i] = rng.choice(sp)
            return v
        self._pool(name, gen)
        r = RL.var(name)
        a = self.alg.vatom(r)
        if nonneg or pos:
            a.nonneg = True
        if pos:
            self.assume(r > 0)
        if bounded:
            self.assume(c_and(r >= lo, r <= hi))
            self.bounds[a.i] = max(abs(Fraction(lo)), abs(Fraction(hi)))
        self.run.inputs[name] = 'real'
        return r

    def vec(self, name, n=3, **kw):
        vs_ = '%s%s0' % (self.pre, name)
        fresh = vs_ not in self.run.env
        vs = Common.vec(self, name, n, **kw)
        name = self.pre + name
        if fresh and not kw.get('pos') and not kw.get('nonneg') and not kw.get('bounded'):
            # degenerate and coincident vectors among the samples
            ns = ['%s%d' % (name, i) for i in range(n)]
            hist = self.run.hist.setdefault(n, [])
            rng = self.run.rng
            for j in DEG:
                m = rng.random()
                if m < .3:
                    for x in ns:
                        self.run.env[x][j] = 0.0
                elif m < .55 and hist:
                    for x, y in zip(ns, rng.choice(hist)):
                        self.run.env[x][j] = self.run.env[y][j]
                elif m < .75 and n == 6:
                    h = rng.choice((0, 3))
                    for x in ns[h:h + 3]:
                        self.run.env[x][j] = 0.0
            hist.append(ns)
        return vs

    def quat(self, name, wpos=True):
        name = self.pre + name
        ns = [name + s for s in ('.w', '.x', '.y', '.z')]
        rng = self.run.rng
        if ns[0] not in self.run.env:
            Q = np.array([sample_quat(rng, i) for i in range(NS)])
            hist = self.run.hist.setdefault('q', [])
            for j in DEG:
                if hist and rng.random() < .4:
                    h = rng.choice(hist)
                    Q[j] = [self.run.env[x][j] for x in h]
            hist.append(ns)
            if wpos:
                Q[Q[:, 0] < 0] *= -1
            for i in range(4):
                self.run.env[ns[i]] = Q[:, i].copy()
        vs = [RL.var(n) for n in ns]
        a = self.alg.vatom(vs[0])
        if a.rule is None:
            for v in vs[1:]:
                self.alg.vatom(v)
            self.alg.rule_sq(vs[0], 1 - vs[1] * vs[1] - vs[2] * vs[2] - vs[3] * vs[3])
            if wpos:
                a.nonneg = True
        for v in vs:
            self.bounds[self.alg.vatom(v).i] = Fraction(1)
        for n in ns:
            self.run.inputs[n] = 'quat'
        return vs

    def unit(self, name, n=3, nonneg=False):
        name = self.pre + name
        ns = ['%s%d' % (name, i) for i in range(n)]
        rng = self.run.rng
        if ns[0] not in self.run.env:
            Q = np.array([sample_unit(rng, i, n) for i in range(NS)])
            if nonneg:
                Q = np.abs(Q)
            for i in range(n):
                self.run.env[ns[i]] = Q[:, i].copy()
        vs = [RL.var(x) for x in ns]
        a = self.alg.vatom(vs[0])
        if a.rule is None:
            e = RL.ONE
            for v in vs[1:]:
                self.alg.vatom(v)
                e = e - v * v
            self.alg.rule_sq(vs[0], e)
        for x, v in zip(ns, vs):
            self.run.inputs[x] = 'unit'
            self.bounds[self.alg.vatom(v).i] = Fraction(1)
            if nonneg:
                self.alg.vatom(v).nonneg = True
        return vs

    def int(self, name, lo=-(1 << 63), hi=(1 << 63) - 1, special=()):
        name = self.pre + name
        z = z3.Int('i!' + name)
        self.run.inputs[name] = ('int', lo, hi, tuple(special))
        self.S.add(z >= lo, z <= hi)
        self.pc.append(zc(z3.And(z >= lo, z <= hi)))
        return z

    def bytes(self, name, n=16):
        return [self.int('%s.%d' % (name, i), -128, 127, (0, 1)) for i in range(n)]

    def fresh_int(self, name, lo=None, hi=None):
        self.nf_ += 1
        z = z3.Int('f!%s!%d' % (name, self.nf_))
        if lo is not None:
            self.add_pc(zc(z3.And(z >= lo, z <= hi)))
        return z

    def toreal(self, z):
        return RL.const(z) if isinstance(z, int) else RL.toreal(z)

    def fresh_real(self, name, lo=None, hi=None, nonneg=False):
        self.nf_ += 1
        r = RL.var('f!%s!%d' % (name, self.nf_))
        a = self.alg.vatom(r)
        if nonneg:
            a.nonneg = True
        if lo is not None:
            self.add_pc(c_and(r >= lo, r <= hi))
        self.pool_ok = False
        return r

    def eps(self):
        self.nf_ += 1
        n = 'eps!%d' % self.nf_
        r = RL.var(n)
        a = self.alg.vatom(r)
        u = Fraction(1, 1 << 53)
        if a.lo is None:
            a.lo = z3.Q(-1, 1 << 53)
            a.hi = z3.Q(1, 1 << 53)
            self.run.env[n] = np.zeros(NS)
        return r

    def round(self, r, op, a, b):
        """IEEE-754 round-to-nearest of an exact result (standard model, no under/overflow)."""
        if r.op == 'c':
            return RL.const(float(r.a[0]))
        if op in '*/' and b is not None:
            for x in (a, b):
                if x.op == 'c' and x.a[0] != 0:
                    f = Fraction(x.a[0])
                    f = abs(f)
                    if f.numerator & (f.numerator - 1) == 0 and f.denominator & (f.denominator - 1) == 0 \
                            and (op == '*' or x is b):
                        return r
        return r * (1 + self.eps())

    def round_int(self, r, v):
        if self.quick_true(z3.And(v <= (1 << 53), v >= -(1 << 53))):
            return r
        return r * (1 + self.eps())

    # ---------------------------------------------------------------- int/real bridge
    def entails(self, c, timeout=2.0):
        c = self._c(c)
        if isinstance(c, bool):
            return c
        return self.prove(c, timeout)[0] == 'proved'

    def int_poly(self, r):
        """r as an integer polynomial with integer coefficients plus a fraction in [0, 1)"""
        try:
            p = self.alg.nf(r)
        except (NormLimit, SpecialFloat, ZeroDivisionError):
            return None
        if len(p) > 20:
            return None
        n, frac = z3.IntVal(0), 0
        for m, k in p.items():
            k = Fraction(k)
            if not m:
                frac = k - math.floor(k)
                n = n + math.floor(k)
                continue
            if k.denominator != 1:
                return None
            t, i = z3.IntVal(k.numerator), 0
            while m:
                e = m & 255
                if e:
                    a = self.alg.atoms[i]
                    if a.kind != 'int':
                        return None
                    for _ in range(e):
                        t = t * RL._zi[a.name]
                m >>= 8
                i += 1
            n = n + t
        return z3.simplify(n), frac

    def _intpart(self, r, kind):
        if r.op == 'i':
            return RL._zi[r.a[0]]
        if r.op == 'neg' and r.a[0].op == 'i':
            return -RL._zi[r.a[0].a[0]]
        e = self.int_poly(r)
        if e is not None and (e[1] == 0 or kind == 'floor'):
            return e[0] + math.floor(e[1])
        self.nf_ += 1
        n = z3.Int('f!%s!%d' % (kind, self.nf_))
        nr = RL.toreal(n)
        d = r - nr
        if kind == 'floor':
            c = c_and(rc('ge', d), rc('lt', d - 1))
        elif kind == 'trunc':
            c = c_or(c_and(rc('ge', r), rc('ge', d), rc('lt', d - 1)),
                     c_and(rc('lt', r), rc('le', d), rc('gt', d + 1)))
        elif kind == 'away':
            h = Fraction(1, 2)
            c = c_or(c_and(rc('ge', r), rc('ge', d + h), rc('lt', d - h)),
                     c_and(rc('lt', r), rc('gt', d + h), rc('le', d - h)))
        else:
            h = Fraction(1, 2)
            c = c_and(rc('ge', d + h), rc('le', d - h))
        self.add_pc(c)
        q, sg = (r.a[0], -1) if r.op == 'neg' else (r, 1)
        if kind == 'floor' and q.op == '/' and self.entails(rc('gt', q.a[1])):
            # the same facts multiplied by the positive denominator
            a, b = q.a[0] * sg, q.a[1]
            self.add_pc(c_and(rc('ge', a - nr * b), rc('lt', a - nr * b - b)))
        if self.on_int is not None:
            self.on_int(n)
        return n

    def trunc_int(self, r):
        return self._intpart(r, 'trunc')

    def floor_int(self, r):
        return self._intpart(r, 'floor')

    def round_half_away(self, r):
        if r.op == 'c':
            f = Fraction(r.a[0])
            return int(math.floor(abs(f) + Fraction(1, 2))) * (1 if f >= 0 else -1)
        return self._intpart(r, 'away')

    def round_nearest(self, r):
        if r.op == 'c':
            return round(Fraction(r.a[0]))
        return self._intpart(r, 'near')

    # ---------------------------------------------------------------- path condition
    def add_pc(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd('infeasible')
        if c.k == 'and':
            for x in c.x:
                self.add_pc(x)
            return
        self.pc.append(c)
        if c.k == 'z':
            self.S.add(c.x)
            self.qcache.clear()
            if z3.is_eq(c.x) and z3.is_int(c.x.arg(0)):
                self._learn_int(c.x.arg(0), c.x.arg(1))
            self.pool_ok = self.pool_ok and False if _has_input_int(c) else self.pool_ok
            return
        self.hasreal = True
        self._learn(c)
        if self.pool_ok:
            try:
                self.alive = np.logical_and(self.alive, np.broadcast_to(self.num.cond(c), (NS,)))
            except (NoNum, SpecialFloat):
                self.pool_ok = False

    def _learn_int(self, a, b):
        """integer equality: the newer constant's real image is replaced by the other side"""
        p = self.alg.padd(self.alg._nfint(a), self.alg._nfint(b), -1)
        for m in sorted(p, reverse=True):
            if m and (m & (m - 1)) == 0 and (m.bit_length() - 1) % 8 == 0:
                i = (m.bit_length() - 1) // 8
                if not any((mm >> (8 * i)) & 255 for mm in p if mm != m):
                    v = p[m]
                    self.subs[i] = {mm: -Fraction(vv) / v for mm, vv in p.items() if mm != m}
                    return

    def _learn(self, c):
        if c.k != 'r' or c.op not in ('eq', 'le', 'ge'):
            return
        try:
            p = self.alg.nf(c.x)
        except (NormLimit, SpecialFloat, ZeroDivisionError):
            return
        if len(p) > 30 or not p:
            return
        if c.op == 'ge':
            p = {m: -v for m, v in p.items()}
        q = p
        if c.op == 'eq' and all(v < 0 for v in p.values()):
            q = {m: -v for m, v in p.items()}
        if all(v > 0 for v in q.values()) and all(self.alg._mono_nonneg(m) for m in q):
            # sum of non-negative terms <= 0: every term vanishes
            for m in q:
                at = [i for i in range(len(self.alg.atoms)) if (m >> (8 * i)) & 255]
                if len(at) == 1:
                    self.subs[at[0]] = {}
            return
        if c.op == 'eq':
            # linear in one variable with constant coefficient
            best = None
            for m, v in p.items():
                if m and (m & (m - 1)) == 0 and (m.bit_length() - 1) % 8 == 0:
                    i = (m.bit_length() - 1) // 8
                    if self.alg.atoms[i].kind == 'var' and self.alg.atoms[i].rule is None and \
                            not any((mm >> (8 * i)) & 255 for mm in p if mm != m):
                        best = (i, m, v)
            if best:
                i, m, v = best
                self.subs[i] = {mm: -Fraction(vv) / v for mm, vv in p.items() if mm != m}

    def assume(self, c):
        c = self._c(c)
        if c is True:
            return
        if c is False:
            raise PathEnd('assume')
        self.add_pc(c)

    def _c(self, c):
        if isinstance(c, (bool, Cond)):
            return c
        if isinstance(c, z3.BoolRef):
            return zc(z3.simplify(c))
        if isinstance(c, np.bool_):
            return bool(c)
        if isinstance(c, BI):
            return c.c
        if isinstance(c, int):
            return bool(c)
        raise TypeError('cond %r' % (c,))

    # ---------------------------------------------------------------- solving
    def quick_true(self, z):
        """z3 formula entailed by the integer part of the path condition"""
        if isinstance(z, bool):
            return z
        k = z.get_id()
        r = self.qcache.get(k)
        if r is not None:
            return r[1]
        self.S.set('timeout', 400)
        self.S.push()
        self.S.add(z3.Not(z))
        t = time.time()
        res = self.S.check()
        self.run.solver_s += time.time() - t
        self.S.pop()
        r = res == z3.unsat
        self.qcache[k] = (z, r)
        return r

    def decide(self, c):
        """syntactic decision of a real condition"""
        if c.k == 'r':
            if c.op in ('ge', 'lt') and self.snonneg(c.x):
                return c.op == 'ge'
            try:
                p = self.alg.nf(c.x)
                if self.subs:
                    p = self.alg.subst(p, self.subs)
            except (NormLimit, SpecialFloat, ZeroDivisionError):
                return None
            if not p:
                return RL.OPF[c.op](0)
            if len(p) == 1 and 0 in p:
                return RL.OPF[c.op](p[0])
            sg = self.sign(p)
            if sg == '+':
                return {'gt': True, 'ge': True, 'ne': True, 'lt': False, 'le': False, 'eq': False}[c.op]
            if sg == '-':
                return {'lt': True, 'le': True, 'ne': True, 'gt': False, 'ge': False, 'eq': False}[c.op]
            if sg == '0+':
                return {'ge': True, 'lt': False}.get(c.op)
            if sg == '0-':
                return {'le': True, 'gt': False}.get(c.op)
        return None

    def snonneg(self, x, d=0):
        """structurally a sum/product of squares and non-negative terms"""
        op = x.op
        if op == 'c':
            return x.a[0] >= 0
        if d > 40:
            return False
        if op == '+':
            return self.snonneg(x.a[0], d + 1) and self.snonneg(x.a[1], d + 1)
        if op == '*':
            return x.a[0] is x.a[1] or (self.snonneg(x.a[0], d + 1) and self.snonneg(x.a[1], d + 1))
        if op == '/':
            return self.snonneg(x.a[0], d + 1) and self.snonneg(x.a[1], d + 1)
        if op == 'f':
            return x.a[0] in ('sqrt', 'abs', 'exp')
        if op == 'v':
            return self.alg.vatom(x).nonneg
        return False

    def sign(self, p):
        pos = all(v > 0 for v in p.values())
        neg_ = all(v < 0 for v in p.values())
        if (pos or neg_) and all(self.alg._mono_nonneg(m) for m in p):
            s = '+' if pos else '-'
            return s if 0 in p else '0' + s
        return None

    def z3_query(self, extra, timeout, ints_only=False):
        """conjunction pc & extra -> (result, model, solver)"""
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        side = set()
        big = self.run.opts.get('nfcap', 80)
        for c in self.pc:
            if c.k == 'z':
                s.add(c.x)
                continue
            if ints_only:
                continue
            try:
                if c.k == 'r' and len(self.alg.nf(c.x)) > big:
                    continue
                s.add(c_z3(c, self.alg, side))
            except (NormLimit, SpecialFloat, ZeroDivisionError):
                continue
        for c in extra:
            s.add(c_z3(c, self.alg, side))
        for i, q in self.subs.items():
            side.add(i)
        s.add(self.alg.side_constraints(side))
        self.last_soft = self.alg.is_soft(side)
        for i, q in self.subs.items():
            sd = set()
            s.add(self.alg.z3atom(i, sd) == self.alg.z3poly(q, sd))
        t = time.time()
        r = s.check()
        self.run.solver_s += time.time() - t
        self.run.nqueries += 1
        return r, s

    def linear_unsat(self, extra):
        """pc & extra unsatisfiable already with every monomial taken as an independent real?"""
        vars_ = {}

        def lin(p):
            ts = []
            for m, co in p.items():
                f = Fraction(co)
                cz = z3.Q(f.numerator, f.denominator)
                if m == 0:
                    ts.append(cz)
                    continue
                v = vars_.get(m)
                if v is None:
                    v = vars_[m] = z3.Real('m!%x' % m)
                ts.append(cz * v)
            return z3.Sum(ts) if ts else z3.RealVal(0)

        def tr(c):
            if isinstance(c, bool):
                return z3.BoolVal(c)
            if c.k == 'z':
                return c.x
            if c.k == 'r':
                p = self.alg.nf(c.x)
                if len(p) > 120:
                    raise NormLimit()
                z = lin(p)
                return {'lt': z < 0, 'le': z <= 0, 'gt': z > 0, 'ge': z >= 0, 'eq': z == 0, 'ne': z != 0}[c.op]
            if c.k == 'not':
                return z3.Not(tr(c.x))
            return (z3.And if c.k == 'and' else z3.Or)([tr(x) for x in c.x])
        s = z3.SolverFor('QF_LIRA')
        s.set('timeout', 500)
        try:
            for c in extra:
                s.add(tr(c))
        except (NormLimit, SpecialFloat, ZeroDivisionError, z3.Z3Exception):
            return False
        for c in self.pc:
            if c.k == 'z':
                continue
            try:
                s.add(tr(c))
            except (NormLimit, SpecialFloat, ZeroDivisionError, z3.Z3Exception):
                continue
        for m, v in vars_.items():
            if self.alg._mono_nonneg(m):
                s.add(v >= 0)
        t = time.time()
        r = s.check()
        self.run.solver_s += time.time() - t
        return r == z3.unsat

    def lia_unsat(self, extra, timeout=3.0):
        """integer part of pc & extra unsatisfiable with products of variables taken as independent integers?"""
        s = z3.SimpleSolver()
        s.set('arith.nl', False)
        s.set('timeout', int(timeout * 1000))
        for c in self.pc:
            z = self.run.somc.get(id(c))
            if z is None:
                z = zonly(c)
                z = self.run.somc[id(c)] = (c, None if z is None else z3.simplify(z, som=True))
            if z[1] is not None:
                s.add(z[1])
        for c in extra:
            s.add(z3.simplify(zonly(c), som=True))
        t = time.time()
        r = s.check()
        self.run.solver_s += time.time() - t
        self.run.nqueries += 1
        return r == z3.unsat

    def mono(self, a, b, k):
        """lemma (valid for all integers): 0 <= k and a < b imply a*k + k <= b*k; a <= b implies a*k <= b*k"""
        I = lambda v: z3.IntVal(v) if isinstance(v, int) else v
        a, b, k = I(a), I(b), I(k)
        if not SymCtx._mono_ok:
            x, y, z = z3.Ints('x y z')
            s = z3.Solver()
            s.add(z3.Not(self._mono(x, y, z)))
            if s.check() != z3.unsat:
                raise Unsupported('monotonicity lemma not proved')
            SymCtx._mono_ok = True
        f = z3.simplify(self._mono(a, b, k), som=True)
        if f.get_id() not in self.monos:
            self.monos[f.get_id()] = f
            self.add_pc(zc(f))

    _mono_ok = False

    @staticmethod
    def _mono(a, b, k):
        return z3.Implies(k >= 0, z3.And(z3.Implies(a < b, a * k + k <= b * k), z3.Implies(a <= b, a * k <= b * k),
                                         z3.Implies(b < a, b * k + k <= a * k), z3.Implies(b <= a, b * k <= a * k)))

    def feasible(self, c, timeout=0.7):
        if isinstance(c, bool):
            return c
        if self.pool_ok and c.k != 'z':
            try:
                if np.any(np.logical_and(self.alive, self.num.cond(c))):
                    return True
            except (NoNum, SpecialFloat):
                pass
        if c.k != 'z' and self.linear_unsat([c]):
            return False
        if self.separable and c.k == 'z':
            # no condition of the path mentions both integers and reals
            return not self.quick_true(z3.Not(c.x))
        if self.abstract and zonly(c) is not None and self.lia_unsat([c]):
            return False
        try:
            r, s = self.z3_query([c], timeout)
        except (NormLimit, SpecialFloat, ZeroDivisionError):
            return True
        return r != z3.unsat

    def choose(self, c):
        c = self._c(c)
        if isinstance(c, bool):
            return c
        self.run.tick()
        if self.pos < len(self.dec):
            d, forced = self.dec[self.pos]
            self.pos += 1
            if not forced:
                self.add_pc(c if d else c_not(c))
            return d
        r = self.decide(c)
        if r is None:
            if not self.feasible(c):
                r = False
            elif not self.feasible(c_not(c)):
                r = True
        if r is not None:
            self.dec.append((r, True))
            self.pos += 1
            return r
        self.run.work.append(self.dec + [(False, False)])
        self.dec.append((True, False))
        self.pos += 1
        self.add_pc(c)
        return True

    branch = choose

    def concretise(self, off, lo, hi, kind, msg):
        if isinstance(off, int):
            return off
        self.oblige(zc(z3.And(off >= lo, off <= hi)), kind, msg, assume=True)
        while True:
            if self.pos < len(self.dec):
                d = self.dec[self.pos]
                self.pos += 1
                self.add_pc(zc(off == d[0][1]) if d[0][0] else zc(off != d[0][1]))
                if d[0][0]:
                    return d[0][1]
                continue
            r, s = self.z3_query([], 2.0, ints_only=True)
            if r != z3.sat:
                if r == z3.unsat:
                    raise PathEnd('infeasible')
                raise Unsupported('concretise')
            v = s.model().eval(off, model_completion=True).as_long()
            r2, _ = self.z3_query([zc(off != v)], 2.0, ints_only=True)
            if r2 != z3.unsat:
                self.run.work.append(self.dec + [((False, v), False)])
            self.dec.append(((True, v), False))
            self.pos += 1
            self.add_pc(zc(off == v))
            return v

    # ---------------------------------------------------------------- obligations
    def oblige(self, c, kind, msg, assume=False, timeout=None):
        c = self._c(c)
        if self.pos < self.inherited:
            # already discharged on the parent path
            if assume and not isinstance(c, bool):
                self.add_pc_q(c)
            return
        self.run.tick()
        self.run.nobl += 1
        if c is True:
            self.run.nproved += 1
            self.run.trivial += 1
            return
        status, sample, how = self.prove(c, timeout)
        if status == 'proved':
            self.run.nproved += 1
            self.run.by[how] = self.run.by.get(how, 0) + 1
        else:
            self.run.fail(Failure(kind, msg, status, sample, self.path_desc(), 'obligation: %r' % (c,)))
        if assume and not isinstance(c, bool):
            self.add_pc_q(c)

    def add_pc_q(self, c):
        try:
            self.add_pc(c)
        except PathEnd:
            raise

    def path_desc(self):
        return [repr(c)[:160] for c in self.pc if c.k != 'z' or len(str(c.x)) < 300][-12:]

    def prove(self, c, timeout=None):
        timeout = timeout or self.run.opts.get('timeout', 10.0)
        if c is False:
            # path must be infeasible
            if self.lia_unsat([]):
                return 'proved', None, 'z3-linear'
            if self.pool_ok and self.alive.any():
                return 'refuted', self.pool_sample(self.alive), 'pool'
            r, s = self.z3_query([], timeout)
            if r == z3.unsat:
                return 'proved', None, 'z3'
            if r == z3.sat:
                return self.sat_verdict(s, None)
            return 'unknown', None, 'z3'
        if c.k == 'and':
            how = None
            for x in c.x:
                st, sm, how = self.prove(x, timeout)
                if st != 'proved':
                    return st, sm, how
            return 'proved', None, how
        if c.k == 'r':
            if c.op == 'eq':
                return self.prove_eq(c.x, timeout)
            d = self.decide(c)
            if d is True:
                return 'proved', None, 'normal-form'
        if self.pool_ok and c.k != 'z':
            try:
                bad = np.logical_and(self.alive, np.logical_not(np.broadcast_to(self.num.cond(c), (NS,))))
                if bad.any() and not self.lia_unsat([]):
                    return 'refuted', self.pool_sample(bad), 'pool'
            except (NoNum, SpecialFloat):
                pass
        if c.k != 'z' and self.linear_unsat([c_not(c)]):
            return 'proved', None, 'z3-linear'
        if zonly(c) is not None and self.lia_unsat([c_not(c)]):
            return 'proved', None, 'z3-linear'
        try:
            r, s = self.z3_query([c_not(c)], timeout)
        except (NormLimit, SpecialFloat, ZeroDivisionError) as e:
            return 'unknown', None, repr(e)
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if r == z3.sat:
            return self.sat_verdict(s, c)
        return 'unknown', None, 'z3'

    def prove_eq(self, d, timeout, tol=None):
        try:
            if self.alg.is_zero(d, self.subs):
                return 'proved', None, 'normal-form'
        except (NormLimit,):
            pass
        except SpecialFloat:
            return 'unknown', None, 'special'
        except ZeroDivisionError:
            pass
        if self.pool_ok:
            try:
                v = np.broadcast_to(self.num.ev(d), (NS,))
                sc = self.scale(d)
                bad = np.logical_and(self.alive, np.abs(v) > 1e-7 * (1 + sc))
                if bad.any():
                    return 'refuted', self.pool_sample(bad), 'pool'
                bad = np.logical_and(self.alive, np.isnan(v))
            except (NoNum, SpecialFloat):
                pass
        try:
            if len(self.alg.nf(d)) < 200:
                r, s = self.z3_query([Cond('r', 'ne', d)], timeout)
                if r == z3.unsat:
                    return 'proved', None, 'z3'
                if r == z3.sat:
                    return self.sat_verdict(s, rc('eq', d))
        except (NormLimit, SpecialFloat, ZeroDivisionError):
            pass
        # exact high-precision evaluation on surviving samples
        if self.pool_ok and not self.subs:
            import mpmath
            mpmath.mp.dps = 60
            for i in np.flatnonzero(self.alive)[:6]:
                env = {n: mpmath.mpf(float(v[i])) for n, v in self.run.env.items()}
                try:
                    renorm(env, self.run.inputs, mpmath)
                    memo = {}
                    if not all(self.mp_cond(c, env, mpmath, memo, 0) for c in self.pc if c.k != 'z'):
                        continue
                    v = RL.ev_mp(d, env, mpmath, self.run.userfn, memo)
                    if abs(v) > mpmath.mpf(10) ** -30 * (1 + abs(RL.ev_mp(d.a[0], env, mpmath, self.run.userfn, memo)
                                                             if d.op == '+' else 0)):
                        m = np.zeros(NS, bool)
                        m[i] = True
                        return 'refuted', self.pool_sample(m), 'evaluation to 60 digits'
                except (NoNum, ZeroDivisionError, ValueError, TypeError, AttributeError, OverflowError, SpecialFloat):
                    break
        return 'unknown', None, 'normal-form incomplete'

    def scale(self, d):
        if d.op == '+':
            try:
                return np.abs(np.broadcast_to(self.num.ev(d.a[0]), (NS,))) + \
                    np.abs(np.broadcast_to(self.num.ev(d.a[1]), (NS,)))
            except (NoNum, SpecialFloat):
                pass
        return 0

    def sat_verdict(self, s, claim):
        """A z3 model refutes the claim only when nothing in the query was abstracted; otherwise it is a candidate that
        has to be confirmed by evaluation (here) or by native replay (later)."""
        m = self.model_sample(s)
        if not self.last_soft:
            # under a callee contract or a loop invariant this is a counterexample to the modular obligation
            return 'refuted', m, 'z3'
        if m and not self.abstract:
            import mpmath
            mpmath.mp.dps = 40
            try:
                env = {n: mpmath.mpf(v) for n, v in m.items() if not isinstance(self.run.inputs.get(n), tuple)}
                for n, k in self.run.inputs.items():
                    if not isinstance(k, tuple):
                        env.setdefault(n, mpmath.mpf(0))
                renorm(env, self.run.inputs, mpmath)
                memo = {}
                if all(self.mp_cond(c, env, mpmath, memo, 0) for c in self.pc) and \
                        (claim is None or self.mp_cond(c_not(claim), env, mpmath, memo, 1)):
                    return 'refuted', m, 'z3+evaluation'
            except (NoNum, ZeroDivisionError, ValueError, TypeError, AttributeError, OverflowError):
                pass
        return 'unknown', m, 'z3 (model not confirmed)'

    def mp_cond(self, c, env, mp, memo, strict):
        if isinstance(c, bool):
            return c
        if c.k == 'z':
            raise NoNum('z3')
        if c.k == 'and':
            return all(self.mp_cond(x, env, mp, memo, strict) for x in c.x)
        if c.k == 'or':
            return any(self.mp_cond(x, env, mp, memo, strict) for x in c.x)
        if c.k == 'not':
            return not self.mp_cond(c.x, env, mp, memo, strict)
        v = RL.ev_mp(c.x, env, mp, self.run.userfn, memo)
        e = mp.mpf(10) ** -12
        if c.op == 'eq':
            return abs(v) < e
        if c.op == 'ne':
            return abs(v) > e
        return v > (e if strict else 0) if c.op in ('gt', 'ge') else v < -(e if strict else 0)

    def assume_nonneg(self, *xs):
        """assumption on inputs, made before anything else: these expressions (single atoms) are >= 0"""
        for x in xs:
            p = self.alg.nf(RL.R_(x))
            (m, c), = p.items()
            i = (m.bit_length() - 1) // 8
            assert c == 1 and m == 1 << (8 * i)
            self.alg.atoms[i].nonneg = True
            self.assume(RL.R_(x) >= 0)

    def principal(self, x):
        self.alg.principal.add(frozenset(self.alg.nf(x).items()))

    def pool_sample(self, mask):
        i = int(np.argmax(mask))
        return {n: float(v[i]) for n, v in self.run.env.items() if n in self.run.inputs}

    def model_sample(self, s):
        try:
            m = s.model()
        except z3.Z3Exception:
            return None
        out = {}
        for n, k in self.run.inputs.items():
            if isinstance(k, tuple):
                v = m.eval(z3.Int('i!' + n), model_completion=False)
                if z3.is_int_value(v):
                    out[n] = v.as_long()
            else:
                v = m.eval(z3.Real('r!' + n), model_completion=False)
                f = z3_float(v)
                if f is not None:
                    out[n] = f
        return out

    # ---------------------------------------------------------------- postconditions
    def eq(self, a, b, label, tol=None):
        d = RL.sub(RL.R_(a), RL.R_(b))
        if d.op == 'special':
            self.oblige(False, 'post', label)
            return
        self.oblige(rc('eq', d), 'post', label)

    # approximate equality: |a-b| <= tol * (1 + sum |rel_i|), proved by Taylor models and term-wise bounds
    def near(self, a, b, label, tol=1e-12, rel=(), ntol=None):
        d = RL.sub(RL.R_(a), RL.R_(b))
        if self.pos < self.inherited:
            return
        self.run.tick()
        self.run.nobl += 1
        try:
            if self.alg.is_zero(d, self.subs):
                self.run.nproved += 1
                self.run.by['normal-form'] = self.run.by.get('normal-form', 0) + 1
                return
            ok, why = self.taylor_bound(d, Fraction(tol), rel)
        except (NormLimit, SpecialFloat, ZeroDivisionError) as e:
            ok, why = False, repr(e)
        if ok:
            self.run.nproved += 1
            self.run.by['taylor-bound'] = self.run.by.get('taylor-bound', 0) + 1
            return
        st, sm = 'unknown', None
        if self.pool_ok:
            import mpmath
            mpmath.mp.dps = 60
            idx = [i for i in range(NS) if self.alive[i]][:40]
            for i in idx:
                env = {n: mpmath.mpf(float(v[i])) for n, v in self.run.env.items()}
                try:
                    renorm(env, self.run.inputs, mpmath)
                    v = RL.ev_mp(d, env, mpmath, self.run.userfn)
                    lim = tol * (1 + sum(abs(RL.ev_mp(RL.R_(x), env, mpmath, self.run.userfn)) for x in rel))
                    if abs(v) > lim * 2:
                        st, sm = 'refuted', {n: float(env[n]) for n in self.run.inputs if n in env}
                        why = 'difference %s exceeds %s' % (mpmath.nstr(v, 8), mpmath.nstr(lim, 8))
                        break
                except (NoNum, ZeroDivisionError, ValueError, TypeError, AttributeError):
                    break
        self.run.fail(Failure('post', label, st, sm, self.path_desc(), why))

    def taylor_bound(self, d, tol, rel):
        alg = self.alg
        p = alg.nf(d)
        p = alg.subst(p, self.subs) if self.subs else p
        bounds = dict(self.bounds)
        # learn bounds of single variables from the path condition
        for c in self.pc:
            if c.k != 'r' or c.op not in ('lt', 'le', 'gt', 'ge'):
                continue
            try:
                q = alg.nf(c.x)
            except (NormLimit, SpecialFloat, ZeroDivisionError):
                continue
            q = dict(q)
            k = q.pop(0, 0)
            if len(q) != 1:
                continue
            (m, co), = q.items()
            at = [i for i in range((m.bit_length() + 7) // 8) if (m >> (8 * i)) & 255]
            if len(at) != 1:
                continue
            e = (m >> (8 * at[0])) & 255
            up = c.op in ('lt', 'le')
            if co < 0:
                up = not up
            if not up:
                continue
            lim = -Fraction(k) / Fraction(co)
            if lim < 0 or (e % 2 and not alg.atoms[at[0]].nonneg):
                continue
            b = iroot_up(lim, e)
            if at[0] not in bounds or b < bounds[at[0]]:
                bounds[at[0]] = b
        K = 6
        # replace sin/cos atoms of bounded monomials by Taylor polynomial + remainder
        subs = {}
        atoms = set()
        for m in p:
            i = 0
            while m:
                if m & 255:
                    atoms.add(i)
                m >>= 8
                i += 1
        for i in sorted(atoms):
            a = alg.atoms[i]
            if a.kind == 'fn' and a.name in ('sin', 'cos'):
                x = a.poly[0]
                if not (len(x) == 1):
                    return False, 'argument of %s is not a monomial' % a.name
                t = {}
                pw = {0: 1} if a.name == 'cos' else dict(x)
                x2 = alg.pmul(x, x)
                f = Fraction(1)
                n = 0 if a.name == 'cos' else 1
                for k in range(K):
                    t = alg.padd(t, {m: v * f for m, v in pw.items()})
                    pw = alg.pmul(pw, x2)
                    f = -f / ((n + 1) * (n + 2))
                    n += 2
                rem = alg.atom('var', 'taylor!%d' % i, ())
                bounds[rem.i] = abs(f)
                t = alg.padd(t, alg.pmul(pw, {1 << (8 * rem.i): 1}))
                subs[i] = t
        if subs:
            p = alg.subst(p, subs)
        relp = {alg.vatom(RL.R_(r)).i: Fraction(0) for r in rel}
        base = Fraction(0)
        for m, co in p.items():
            v = abs(Fraction(co))
            who = None
            i = 0
            while m:
                e = m & 255
                if e:
                    if i in relp and e == 1 and who is None:
                        who = i
                    elif i in bounds:
                        v *= bounds[i] ** e
                    else:
                        return False, 'no bound for %s %s' % (alg.atoms[i].kind, alg.atoms[i].name)
                m >>= 8
                i += 1
            if who is None:
                base += v
            else:
                relp[who] += v
        w = max([base] + list(relp.values()))
        return w <= tol, 'term-wise bound %.3g against %.3g' % (float(w), float(tol))

    def ieq(self, a, b, label):
        if isinstance(a, int) and isinstance(b, int):
            self.oblige(a == b, 'post', label)
        else:
            self.oblige(self._c(a == b), 'post', label)

    def holds(self, c, label):
        self.oblige(self._c(c), 'post', label)

    # logic helpers usable in both modes
    def And(self, *cs):
        return c_and(*[self._c(c) for c in cs])

    def Or(self, *cs):
        return c_or(*[self._c(c) for c in cs])

    def Not(self, c):
        return c_not(self._c(c))

    def Implies(self, a, b):
        return c_or(c_not(self._c(a)), self._c(b))

    def Iff(self, a, b):
        a, b = self._c(a), self._c(b)
        return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))

    def beq(self, a, b):
        """byte strings equal"""
        return c_and(*[self._c(x == y) if not (isinstance(x, int) and isinstance(y, int)) else x == y
                       for x, y in zip(a, b)])

    def isnull(self, a):
        return self.beq(a, [0] * len(a))

    def req(self, a, b):
        """two reals are equal (as a condition)"""
        return rc('eq', RL.sub(RL.R_(a), RL.R_(b)))

    def sqrt(self, x):
        return RL.fn('sqrt', x)

    def sin(self, x):
        return RL.fn('sin', x)

    def cos(self, x):
        return RL.fn('cos', x)

    def fn(self, name, *a):
        return RL.fn(name, *a)

    def r(self, i):
        """integer as real"""
        return RL.toreal(i)

    def pick(self, c, a, b):
        return a if self.branch(c) else b

    # ---------------------------------------------------------------- calls
    def call(self, h, x=(), k=(), b=(), no=0, nio=0, nbo=0):
        E = self.E
        E.depth = 0

        def arr(vals, size, nm):
            o = E.new_obj(max(1, len(vals)) * size, 'arg', nm)
            for i, v in enumerate(vals):
                if size == 8 and nm == 'x':
                    v = RL.R_(v)
                E.put(o, i * size, size, v)
            return Ptr(o, 0)
        px, pk, pb = arr(list(x), 8, 'x'), arr(list(k), 8, 'k'), arr(list(b), 1, 'b')
        po, pio, pbo = (Ptr(E.new_obj(max(1, no) * 8, 'arg', 'o'), 0), Ptr(E.new_obj(max(1, nio) * 8, 'arg', 'io'), 0),
                        Ptr(E.new_obj(max(1, nbo), 'arg', 'bo'), 0))
        E.ghost['emit'] = []
        E.ghost['emit_base'] = 0
        if self.loop_specs:
            E.tracked = []
        out = Out()
        out.exc = None
        try:
            E.call(h, [px, pk, pb, po, pio, pbo])
            out.kind = 'ret'
        except CxxThrow as e:
            out.kind = 'throw'
            out.exc = EXC_NAMES.get(e.ti, e.ti)
        except Abort as e:
            out.kind = 'abort'
            out.exc = e.why
        out.ghost = E.ghost['emit']
        out.nghost = E.ghost.get('emit_base', 0) + len(out.ghost)
        if out.kind == 'ret':
            out.o = LazyOut(E, po.obj, 8, no, ir.DBL)
            out.io = LazyOut(E, pio.obj, 8, nio, ir.IntTy(64))
            out.bo = LazyOut(E, pbo.obj, 1, nbo, ir.IntTy(8))
        else:
            out.o = out.io = out.bo = ()
        return out


def iroot_up(f, e):
    """rational upper bound of the e-th root"""
    x = Fraction(float(f) ** (1.0 / e) * (1 + 1e-9) + 1e-300)
    while x ** e < f:
        x *= Fraction(1001, 1000)
    return x


def renorm(env, inputs, mp):
    """unit tuples of a double sample, normalised in high precision"""
    groups = {}
    for n, k in inputs.items():
        if k == 'quat':
            groups.setdefault(('q', n[:-2]), []).append(n)
        elif k == 'unit':
            groups.setdefault(('u', n.rstrip('0123456789')), []).append(n)
    for ns in groups.values():
        s = mp.sqrt(sum(env[n] ** 2 for n in ns))
        for n in ns:
            env[n] = env[n] / s


class LazyOut:
    def __init__(self, E, obj, size, n, ty):
        self.E, self.obj, self.size, self.n, self.ty = E, obj, size, n, ty

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(*i.indices(self.n))]
        v = self.E.as_type(self.E.get(self.obj, i * self.size, self.size), self.ty)
        if self.ty.k == 'double':
            return self.E.real(v)
        return self.E.toint(v)


def _has_input_int(c):
    return False


def z3_float(v):
    try:
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
    except Exception:
        return None
    return None


def sample_quat(rng, i):
    k = i % 12
    if k == 0:
        return (1.0, 0.0, 0.0, 0.0)
    if k in (1, 2, 3):
        q = [0.0] * 4
        q[k] = 1.0
        return tuple(q)
    if k == 4:
        u = sample_unit(rng, 9, 3)
        a = 10 ** rng.uniform(-6, -1)
        return (math.cos(a / 2),) + tuple(math.sin(a / 2) * x for x in u)
    if k == 5:
        u = sample_unit(rng, 9, 3)
        a = math.pi - 10 ** rng.uniform(-4, -1)
        return (math.cos(a / 2),) + tuple(math.sin(a / 2) * x for x in u)
    if k == 6:
        u = sample_unit(rng, 0 + rng.randrange(3), 3)
        a = rng.uniform(-3, 3)
        return (math.cos(a / 2),) + tuple(math.sin(a / 2) * x for x in u)
    q = [rng.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    return tuple(x / n for x in q)


def sample_unit(rng, i, n):
    if i % 8 < n:
        u = [0.0] * n
        u[i % 8] = 1.0 if rng.random() < .5 else -1.0
        return tuple(u)
    q = [rng.gauss(0, 1) for _ in range(n)]
    s = math.sqrt(sum(x * x for x in q))
    return tuple(x / s for x in q)


class Contract:
    def __init__(self, fn, prop, name, title, opts, overrides):
        self.fn = fn
        self.prop = prop
        self.name = name
        self.title = title
        self.opts = opts
        self.overrides = overrides


class Restart(Exception):
    pass


def same_cell(x, y):
    try:
        if x is None or y is None:
            return False
        if len(x) != len(y):
            return False
        for a, b in zip(x, y):
            if a is b:
                continue
            if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
                if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)):
                    return False
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is not b.obj or not (a.off is b.off or (isinstance(a.off, int) and a.off == b.off)):
                    return False
            elif a != b:
                return False
        return True
    except Exception:
        return False


def zonly(c):
    """the z3 formula of a condition over integers only, else None"""
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if c.k == 'z':
        return c.x
    if c.k == 'r':
        return None
    if c.k == 'not':
        z = zonly(c.x)
        return None if z is None else z3.Not(z)
    zs = [zonly(x) for x in c.x]
    if any(z is None for z in zs):
        return None
    return (z3.And if c.k == 'and' else z3.Or)(zs)


def loop_headers(f):
    """header block index -> [(register index, name, type)] of its phis"""
    if getattr(f, '_loops', None) is not None:
        return f._loops
    if not f.parsed:
        ir.parse_func(f)
    regs = {}
    for nm, t, at in f.params:
        regs[nm] = len(regs)
    idx = {}
    for i, (l, ins) in enumerate(f.blocks):
        idx[l] = i
        for x in ins:
            if x.res is not None:
                regs[x.res] = len(regs)
    succ = {i: [idx[t] for t in ir.successors(ins[-1])] for i, (l, ins) in enumerate(f.blocks)}
    # back edges by depth-first search
    state, heads, todo = {}, set(), [(0, iter(succ[0]))]
    state[0] = 1
    while todo:
        n, it = todo[-1]
        for m in it:
            if m not in state:
                state[m] = 1
                todo.append((m, iter(succ[m])))
                break
            if state[m] == 1:
                heads.add(m)
        else:
            state[n] = 2
            todo.pop()
    f._loops = {b: [(regs[x.res], x.res, x.ty) for x in f.blocks[b][1] if x.op == 'phi'] for b in heads}
    return f._loops


def loop_candidates(ph, alts):
    import itertools
    out, seen = [], set()
    for ai, (roles, _) in enumerate(alts):
        byname = {}
        for r in roles:
            for j, (reg, nm, ty) in enumerate(ph):
                if re.sub(r'[.0-9]+$', '', nm).lstrip('%') == r and j not in byname.values():
                    byname[r] = j
        cands = [byname] if len(byname) == len(roles) else []
        if len(ph) <= 4:
            for p in itertools.permutations(range(len(ph)), len(roles)):
                cands.append(dict(zip(roles, p)))
        for a in cands:
            k = (tuple(sorted(a.items())), ai)
            if k not in seen:
                seen.add(k)
                out.append((a, ai))
    return out


class SymRun:
    """All paths of one contract."""

    def __init__(self, contract, mod, budget=120.0, seed=1):
        self.contract = contract
        self.mod = mod
        self.alg = Algebra()
        self.env = {}
        self.userfn = contract.opts.get('userfn', {})
        self.inputs = {}
        self.rng = random.Random(seed * 7919 + len(contract.name))
        self.opts = contract.opts
        self.overrides = contract.overrides
        self.ovcache = {}
        self.functions = {}
        self.stateful = set()
        self.assumed = set()
        self.callee_contracts = set()
        self.work = [[]]
        self.paths = 0
        self.path_kinds = {}
        self.nobl = self.nproved = self.trivial = 0
        self.by = {}
        self.failures = []
        self.unsupported = []
        self.solver_s = 0.0
        self.nqueries = 0
        self.deadline = time.time() + contract.opts.get('budget', budget)
        self.maxpaths = contract.opts.get('maxpaths', 4000)
        self.wall = 0.0
        self.complete = False
        self.outs = []
        self.hist = {}
        self.loopcands, self.loopchoice, self.loopmod = {}, {}, {}
        self.somc = {}

    def tick(self):
        if time.time() > self.deadline:
            raise Timeout()

    def fail(self, f):
        self.failures.append(f)

    def execute(self):
        t0 = time.time()
        try:
            while self.work:
                dec = self.work.pop()
                ctx = SymCtx(self, dec)
                self.paths += 1
                if self.paths > self.maxpaths:
                    raise Timeout()
                kind = 'ok'
                try:
                    self.contract.fn(ctx)
                    if ctx.E.gwrites and not self.contract.opts.get('once'):
                        # the code keeps state between calls: the contract must hold again, for other inputs, in the state it left
                        self.stateful |= ctx.E.gwrites
                        ctx.pre = 'again.'
                        self.contract.fn(ctx)
                except PathEnd as e:
                    kind = 'end:' + str(e)
                except Restart:
                    self.work = [[]]
                    self.nobl = self.nproved = self.trivial = 0
                    self.by, self.failures, self.unsupported, self.path_kinds = {}, [], [], {}
                    continue
                except Unsupported as e:
                    kind = 'unsupported'
                    # an unsupported operation on an infeasible path does not matter
                    self.unsupported.append(str(e))
                except (SpecialFloat, NormLimit, NotImplementedError, ir.IRError) as e:
                    kind = 'unsupported'
                    self.unsupported.append(repr(e))
                except RecursionError as e:
                    kind = 'unsupported'
                    self.unsupported.append('recursion')
                self.path_kinds[kind] = self.path_kinds.get(kind, 0) + 1
                if len([f for f in self.failures if f.status == 'refuted']) >= 6:
                    break
                if len(self.failures) >= 40 or len(self.unsupported) > 20:
                    break
            else:
                self.complete = True
        except Timeout:
            self.unsupported.append('time/path budget exhausted after %d paths' % self.paths)
        except (KeyError, IndexError, TypeError, AttributeError, z3.Z3Exception, ValueError, AssertionError) as e:
            import traceback
            self.unsupported.append('engine error: ' + traceback.format_exc()[-3500:])
        self.wall = time.time() - t0
        return self

    def proved(self):
        return self.complete and not self.failures and not self.unsupported and self.nobl > 0 \
            and self.path_kinds.get('ok', 0) > 0

    def summary(self):
        return dict(contract=self.contract.name, title=self.contract.title, prop=self.contract.prop,
                    proved=self.proved(), paths=self.paths, path_kinds=self.path_kinds, obligations=self.nobl,
                    discharged=self.nproved, trivial=self.trivial, by=self.by,
                    solver_s=round(self.solver_s, 2), queries=self.nqueries,
                    wall=round(self.wall, 2), unsupported=self.unsupported[:5],
                    failures=[dict(kind=f.kind, msg=f.msg, status=f.status, sample=f.sample, path=f.path,
                                   detail=f.detail[:600]) for f in self.failures[:12]],
                    functions=self.functions, stateful=sorted(self.stateful), assumed=sorted(self.assumed),
                    callee_contracts=sorted(self.callee_contracts))


# ------------------------------------------------------------------ concrete
class ConcFail(Exception):
    pass


class ConcCtx(Common):
    """Concrete evaluation against the native library."""
    symbolic = False

    def __init__(self, native, rng, preset=None, idx=0, opts=None):
        self.native = native
        self.rng = rng
        self.preset = preset or {}
        self.inputs = {}
        self.fails = []
        self.idx = idx
        self.mag = 0.0
        self.checked = 0
        self.opts = opts or {}
        self.calls = []
        self.deg = 0.0 if self.preset else rng.choice((0.0, 0.0, 0.15, 0.35, 0.6))
        self.hist = {}

    def vec(self, name, n=3, lo=-10.0, hi=10.0, **kw):
        """as in Common, with degenerate and coincident vectors"""
        ns = ['%s%d' % (name, i) for i in range(n)]
        if self.deg and ns[0] not in self.inputs and self.rng.random() < self.deg:
            hist = self.hist.get(n, [])
            m = self.rng.random()
            v = None
            if m < .4:
                v = [0.0] * n
            elif m < .7 and hist:
                v = self.rng.choice(hist)
            elif m < .8 and hist:
                v = [-x for x in self.rng.choice(hist)]
            elif n == 6:
                h = self.rng.choice((0, 3))
                v = [0.0 if h <= i < h + 3 else self.rng.uniform(max(lo, -10), min(hi, 10)) for i in range(6)]
            bad = kw.get('pos') or kw.get('nonneg')
            if v is not None and all(lo <= x <= hi and (not bad or x > 0) for x in v):
                for x, y in zip(ns, v):
                    self.inputs[x] = y
        if lo < 0 < hi and not (kw.get('pos') or kw.get('nonneg')) and ns[0] not in self.inputs and ns[0] not in self.preset and self.rng.random() < .06:
            # short in every coordinate
            e = 10 ** self.rng.uniform(-9, -3)
            for x in ns:
                self.inputs[x] = max(lo, min(hi, self.rng.uniform(-1, 1) * e))
        v = Common.vec(self, name, n, lo=lo, hi=hi, **kw)
        self.hist.setdefault(n, []).append(v)
        return v

    def real(self, name, lo=-10.0, hi=10.0, special=(0.0, 1.0, -1.0), nonneg=False, pos=False, bounded=False):
        if name in self.inputs:
            return self.inputs[name]
        if nonneg and lo < 0:
            lo = 0.0
        if pos and lo <= 0:
            lo = 1e-3
        v = self.preset.get(name)
        if v is None:
            sp = [s for s in special if lo <= s <= hi and (not pos or s > 0)]
            if sp and self.rng.random() < 0.25:
                v = self.rng.choice(sp)
            elif lo < 0 < hi and self.rng.random() < 0.1:
                v = self.rng.choice((-1, 1)) * 10 ** self.rng.uniform(-8, -1)
                v = min(max(v, lo), hi)
            else:
                v = self.rng.uniform(lo, hi)
        v = float(v)
        if abs(v) > 1e12 or v != v:
            raise Discard()
        if pos and v <= 0 or nonneg and v < 0 or bounded and not lo <= v <= hi:
            raise Discard()
        self.mag = max(self.mag, abs(v))
        self.inputs[name] = v
        return v

    def quat(self, name, wpos=True):
        ns = [name + s for s in ('.w', '.x', '.y', '.z')]
        if ns[0] in self.inputs:
            return [self.inputs[n] for n in ns]
        if all(n in self.preset for n in ns):
            q = [self.preset[n] for n in ns]
        elif self.deg and self.rng.random() < self.deg:
            q = self.rng.choice(self.hist.get('q', []) + [(1., 0., 0., 0.)])
        else:
            q = sample_quat(self.rng, self.rng.randrange(12))
        self.hist.setdefault('q', []).append(q)
        s = math.sqrt(sum(x * x for x in q))
        if s < 1e-9:
            q, s = (1., 0., 0., 0.), 1.0
        if wpos and q[0] < 0:
            q = [-x for x in q]
        q = [x / s for x in q]
        for n, v in zip(ns, q):
            self.inputs[n] = v
        return q

    def unit(self, name, n=3, nonneg=False):
        ns = ['%s%d' % (name, i) for i in range(n)]
        if ns[0] in self.inputs:
            return [self.inputs[x] for x in ns]
        if all(x in self.preset for x in ns):
            q = [self.preset[x] for x in ns]
        else:
            q = sample_unit(self.rng, self.rng.randrange(8), n)
        if nonneg:
            q = [abs(x) for x in q]
        s = math.sqrt(sum(x * x for x in q)) or 1.0
        q = [x / s for x in q]
        for a, v in zip(ns, q):
            self.inputs[a] = v
        return q

    def int(self, name, lo=-(1 << 63), hi=(1 << 63) - 1, special=()):
        if name in self.inputs:
            return self.inputs[name]
        v = self.preset.get(name)
        if v is None:
            r = self.rng.random()
            sp = [x for x in list(special) + [lo, hi, 0, 1, -1, lo + 1, hi - 1] if lo <= x <= hi]
            if r < 0.3:
                v = self.rng.choice(sp)
            elif r < 0.7:
                b = self.rng.randrange(1, 64)
                v = self.rng.randrange(-(1 << (b - 1)), 1 << (b - 1))
                v = min(max(v, lo), hi)
            else:
                v = self.rng.randint(lo, hi)
        v = int(v)
        if not lo <= v <= hi:
            raise Discard()
        self.inputs[name] = v
        return v

    def bytes(self, name, n=16):
        ns = ['%s.%d' % (name, i) for i in range(n)]
        if ns[0] in self.inputs:
            return [self.inputs[x] for x in ns]
        if any(x in self.preset for x in ns):
            vs = [self.preset.get(x, 0) for x in ns]
        else:
            r = self.rng.random()
            if r < 0.3:
                vs = [0] * n
            elif r < 0.9:
                # few distinct ids so that equal frames are common; near-collisions too
                vs = [0] * n
                vs[self.rng.choice([0, 7, 15])] = self.rng.choice([1, 2, -128])
            else:
                vs = [self.rng.randint(-128, 127) for _ in range(n)]
        for x, v in zip(ns, vs):
            self.inputs[x] = v
        return vs

    def assume(self, c):
        if not bool(c):
            raise Discard()

    def assume_nonneg(self, *xs):
        for x in xs:
            self.assume(x >= 0)

    def principal(self, x):
        pass

    def branch(self, c):
        return bool(c)

    def eq(self, a, b, label, tol=None):
        self.checked += 1
        if tol is None:
            tol = self.opts.get('tol', 1e-10)
        a, b = float(a), float(b)
        # rounding of intermediate results of (at most) third degree in the inputs is allowed for
        if not (abs(a - b) <= tol * (1 + abs(a) + abs(b)) + (1e-14 * self.mag ** 3 if tol else 0)):
            self.fails.append('%s: got %.17g, expected %.17g' % (label, a, b))

    def near(self, a, b, label, tol=1e-12, rel=(), ntol=None):
        self.checked += 1
        ntol = ntol or max(tol * 10, 1e-9)
        a, b = float(a), float(b)
        if not (abs(a - b) <= ntol * (1 + abs(b) + sum(abs(r) for r in rel)) + 1e-14 * self.mag ** 3):
            self.fails.append('%s: got %.17g, expected %.17g' % (label, a, b))

    def ieq(self, a, b, label):
        self.checked += 1
        if a != b:
            self.fails.append('%s: got %r, expected %r' % (label, a, b))

    def holds(self, c, label):
        self.checked += 1
        if not bool(c):
            self.fails.append(label)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def beq(self, a, b):
        return all((x - y) % 256 == 0 for x, y in zip(a, b))

    def isnull(self, a):
        return all(x == 0 for x in a)

    def req(self, a, b):
        return float(a) == float(b)

    def sqrt(self, x):
        return math.sqrt(max(0.0, x))

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def fn(self, name, *a):
        u = self.opts.get('userfn', {}).get(name)
        if u:
            return float(u(*a))
        if name == 'pi':
            return math.pi
        if name == 'abs':
            return abs(*a)
        return getattr(math, name)(*a)

    def r(self, i):
        return float(i)

    def pick(self, c, a, b):
        return a if bool(c) else b

    def note_contract(self, s):
        pass

    def call(self, h, x=(), k=(), b=(), no=0, nio=0, nbo=0):
        r = self.native.call(h, [float(v) for v in x], [int(v) for v in k], [int(v) & 255 for v in b], no, nio, nbo)
        out = Out()
        out.kind, out.exc, out.o, out.io, out.bo, out.ghost = r
        out.nghost = len(out.ghost)
        self.calls.append((h, list(x), list(k), list(b), out.kind, out.exc, list(out.o)[:40], list(out.io)[:40],
                           list(out.bo)[:40]))
        return out


def run_concrete(contract, native, rng, preset=None):
    """-> (fails, inputs, calls) or None when discarded"""
    c = ConcCtx(native, rng, preset, opts=contract.opts)
    try:
        contract.fn(c)
    except (Discard,):
        return None
    except PathEnd:
        pass
    except (OverflowError, ZeroDivisionError, ValueError):
        return None
    if not c.checked:
        return None
    return c.fails, c.inputs, c.calls
