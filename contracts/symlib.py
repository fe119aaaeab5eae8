"""Helpers for callee contracts (used at call sites instead of the callee's body)."""
from irv import reals as RL
from irv import ir
from irv.engine import Ptr


def rd(E, p, i=0):
    return E.real(E.load(Ptr(p.obj, p.off + 8 * i), ir.DBL))


def rd_vec(E, p, n):
    return [rd(E, p, i) for i in range(n)]


def rd_mat(E, p, n, m):
    """column-major Eigen matrix"""
    return [[rd(E, p, j * n + i) for j in range(m)] for i in range(n)]


def wr_vec(E, p, v):
    for i, x in enumerate(v):
        E.store(RL.R_(x), Ptr(p.obj, p.off + 8 * i), ir.DBL)


def wr_mat(E, p, M):
    n = len(M)
    for i, r in enumerate(M):
        for j, x in enumerate(r):
            E.store(RL.R_(x), Ptr(p.obj, p.off + 8 * (j * n + i)), ir.DBL)


def so3_matrix(E, so3):
    return rd_mat(E, E.call('_ZNK5resim10transforms3SO315rotation_matrixEv', [so3]), 3, 3)


def pre_eq(E, a, b, what):
    """precondition of a callee contract: two reals are equal"""
    E.ctx.eq(a, b, 'precondition of ' + what)


def so3_log_contract(R, w):
    """SO3::log() const applied to the rotation R returns w (contract C03: exp(w) = R, |w| <= pi)."""
    def f(E, args, name):
        M = so3_matrix(E, args[1])
        for i in range(3):
            for j in range(3):
                pre_eq(E, M[i][j], R[i][j], 'SO3::log contract')
        E.ctx.note_contract('SO3::log (C03): exp(log R) = R and |log R| <= pi')
        wr_vec(E, args[0], w)
    return f


SO3_LOG = r'resim::transforms::SO3::log\(\) const$'


def buf(E, vals):
    o = E.new_obj(8 * max(1, len(vals)), 'arg', 'ghost')
    for i, v in enumerate(vals):
        E.put(o, 8 * i, 8, RL.R_(v))
    return Ptr(o, 0)


def outbuf(E, n):
    return Ptr(E.new_obj(8 * n, 'arg', 'ghost'), 0)


def ghost_read(E, fn, p, n):
    b = outbuf(E, n)
    E.call(fn, [p, b])
    return rd_vec(E, b, n)


def call_body(E, name, args):
    """the real body of an overridden function"""
    return E.run(E.mod.funcs[name], args)


def deriv(r, t, dmap, memo=None):
    """d r / d t; dmap: variable name -> its derivative (variables that are functions of t)"""
    memo = {} if memo is None else memo
    todo = [RL.R_(r)]
    while todo:
        x = todo[-1]
        if x.id in memo:
            todo.pop()
            continue
        ch = [y for y in x.a if isinstance(y, RL.R)]
        pend = [y for y in ch if y.id not in memo]
        if pend:
            todo.extend(pend)
            continue
        if x.op == 'c' or x.op == 'i':
            d = RL.const(0)
        elif x.op == 'v':
            n = x.a[0]
            d = RL.const(1) if n == t else RL.R_(dmap.get(n, 0))
        elif x.op == '+':
            d = memo[x.a[0].id] + memo[x.a[1].id]
        elif x.op == 'neg':
            d = -memo[x.a[0].id]
        elif x.op == '*':
            d = memo[x.a[0].id] * x.a[1] + x.a[0] * memo[x.a[1].id]
        elif x.op == '/':
            d = (memo[x.a[0].id] * x.a[1] - x.a[0] * memo[x.a[1].id]) / (x.a[1] * x.a[1])
        else:
            if all(memo[y.id] is RL.const(0) for y in ch):
                d = RL.const(0)
            else:
                raise RL.SpecialFloat('derivative of ' + x.op)
        memo[x.id] = d
        todo.pop()
    return memo[RL.R_(r).id]


def fresh_pose(E, G, name, w=None, dmap=None):
    """fresh group element (row-major rotation, then translation); when w is given its time derivative is hat(w) times it"""
    q = E.ctx.quat(name, wpos=False)
    c = E.ctx
    R = c.rotq(q)
    out = [v for r in R for v in r]
    t = [c.real('%s.t%d' % (name, i)) for i in range(3)] if G == 'se3' else []
    if w is not None:
        qw, qv = q[0], q[1:]
        from .lib import cross, dot, scale, add
        h = RL.const(0.5)
        dmap[qw.a[0]] = -h * dot(w[:3], qv)
        dv = scale(h, add(scale(qw, w[:3]), cross(w[:3], qv)))
        for x, d in zip(qv, dv):
            dmap[x.a[0]] = d
        if t:
            dt = add(cross(w[:3], t), w[3:])
            for x, d in zip(t, dt):
                dmap[x.a[0]] = d
    return out + t


def se3_content(E, p):
    """the twelve numbers of an SE3 (through its accessors)"""
    M = so3_matrix(E, E.call('_ZNK5resim10transforms3SE38rotationEv', [p]))
    return [v for r in M for v in r] + rd_vec(E, E.call('_ZNK5resim10transforms3SE311translationEv', [p]), 3)


def pure_log(G):
    """G::log() const is a function of the value of the transform (its value is pinned by C03/C04)."""
    nm = G.upper()

    def f(E, args, name):
        E.ctx.note_contract(nm + '::log is a function of the transform\'s value (C03/C04 pin that function: exp(log g) = g)')
        v = se3_content(E, args[1]) if G == 'se3' else [x for r in so3_matrix(E, args[1]) for x in r]
        memo = E.ghost.setdefault('log' + G, {})
        key = tuple(RL.R_(x).id for x in v)
        if key not in memo:
            memo[key] = [E.ctx.real('log%s%d_%d' % (G, len(memo), i)) for i in range(3 if G == 'so3' else 6)]
        wr_vec(E, args[0], memo[key])
    return (r'resim::transforms::%s::log\(\) const$' % nm, f)
