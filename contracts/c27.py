"""The view: every viewed object is delivered once, whatever other threads do."""
from .registry import Property
from .lib import *
from .symlib import *
from .c21 import Prim, KINDS, same
from irv.engine import Watch, Ptr

P = Property('C27', ['h_view.cc'], exclude=['resim/visualization/client/view_client.cc'],
             cflags=['-include', 'locks.hh'], once=True,
             bound='histories of at most 2 views of one thread with at most two actions of other threads before each lock acquisition',
             assumptions=['a mutex gives mutual exclusion and happens-before between its critical sections; the monitor argument (every access to the view holds its lock, '
                          'proved here) reduces interleavings to the orders of critical sections',
                          'the HTTP client (view_client.cc, needs the cpr library) is replaced by a recording client'])


def prepare(c):
    """run the static initialiser of view.cc; from here on every access to the view needs a common lock"""
    if not c.symbolic:
        return
    E = c.E
    held, sets = [], {}

    def event(E, args, name):
        k = (args[0].obj.id, args[0].off)
        if E.toint(args[1]):
            held.append(k)
        else:
            held.remove(k) if k in held else E.ub('unlock', 'unlock of a lock that is not held')
    from .c09 import install
    import re
    install(c, [(re.compile(r'irv_lock_event$'), event), (re.compile(r'__gthread_active_p\(\)'), lambda E, a, n: True)])
    for f in E.mod.funcs:
        if re.match(r'_GLOBAL__sub_I_(view|h_view)\.cc', f):
            E.call(f, [])
    v = E.call('irv_view', [])

    def hit(E, p, size, what):
        off = p.off
        if not isinstance(off, int):
            return
        for i in range(off - off % 8, off + size, 8):
            sets[i] = sets.get(i, set(held)) & set(held)
            if not sets[i]:
                E.ub('race', '%s of the shared view at offset %d without a lock that protects all its accesses' % (what, i))
    v.obj.alive = Watch(hit)


HOW = ('view << object', 'VIEW(object, name)', 'VIEW(object) << name', 'an unnamed view object')
for _h in range(4):
    for _k, _e in [(k, 0) for k in range(7)] + ([(0, 1), (2, 1)] if _h in (1, 2) else []):
        @P.contract('%s of a %s%s: exactly one primitive arrives, with that payload, name, file and line' % (HOW[_h], KINDS[_k], ', empty name' * _e),
                    name='one[%d,%s%s]' % (_h, KINDS[_k], ',empty name' * _e))
        def one(c, h=_h, k=_k, e=_e):
            prepare(c)
            nm = [3, 16, 1, 20, 5, 2, 15][k] if h in (1, 2) else None
            if e:
                nm = 0
            p = Prim(c, 'p', k, nm, 0 if h == 0 else 5, printable=True)
            o = c.call('h_view_one', x=p.x, k=p.k + [h], b=p.b, no=26, nio=14, nbo=96)
            c.no_throw(o)
            c.ieq(o.io[8], 1, 'primitives delivered')
            c.ieq(o.io[9], 1, 'updates sent')
            c.ieq(o.io[10], 0, 'lock discipline')
            c.ieq(o.io[11], 0, 'lock released')
            if h == 0:
                p.line = 0
                p.file, p.ftext = 12, list(b'Unknown file')
            p.id = [o.bo[i] for i in range(16)]
            p.maybe_named = e  # an empty name or none
            same(c, o, p)
            c.ieq(o.io[12], 1, 'nothing delivered again')
            c.ieq(o.io[13], 0, 'lock discipline at the end')


def expected(n, plan):
    """arrival order and what must have arrived when the i-th view returns, from the order of the critical sections"""
    order, env = [], 0
    it = iter(list(plan) + [0] * 8)
    upto = []
    for i in range(n):
        for step in range(2):
            a = next(it)
            env += {0: 0, 1: 1, 2: 1, 3: 0, 4: 2, 5: 1}[a]
            order += list(range(1 + env - {0: 0, 1: 1, 2: 1, 3: 0, 4: 2, 5: 1}[a], 1 + env))
            if step == 0:
                order.append(1001 + i)
        upto.append(len(order))
    return order, env, upto


def schedule(n, plan, fail=-1):
    def f(c):
        prepare(c)
        o = c.call('h_view_sched', k=[n, fail, 0, 0] + list(plan) + [0] * (8 - len(plan)), nio=32)
        c.no_throw(o)
        c.ieq(o.io[18], 0, 'lock discipline')
        c.ieq(o.io[20], 0, 'lock released after every view')
        m = int(c.concrete(o.io[16])) if hasattr(c, 'concrete') else o.io[16]
        got = [o.io[i] for i in range(min(m, 16))]
        for i in range(len(got)):
            for j in range(i):
                c.holds(got[i] != got[j], 'arrival %d is not arrival %d again' % (i, j))
        env = o.io[17]
        if fail < 0:
            c.ieq(o.io[19], 0, 'no view fails')
            c.ieq(o.io[16], n + env, 'everything viewed has arrived')
            for i in range(n):
                c.ieq(sum(1 for g in got[:o.io[24 + i]] if g == 1001 + i), 1, 'view %d has arrived when it returns' % i)
            ours = [g for g in got if g > 1000]
            for i, g in enumerate(ours):
                c.ieq(g, 1001 + i, 'order of arrival of the thread\'s own views (%d)' % i)
            oth = [g for g in got if g < 1000]
            for i, g in enumerate(oth):
                c.ieq(g, 1 + i, 'order of arrival of other threads\' views (%d)' % i)
        else:
            c.ieq(o.io[19], 1 << fail, 'exactly the view whose send failed throws')
            ours = [g for g in got if g > 1000]
            c.ieq(len(ours), n - 1, 'the other views have arrived')
    P.contract('%d views with other threads acting as %s before the thread\'s lock acquisitions%s: nothing lost, nothing delivered twice, order kept' % (
        n, list(plan), '' if fail < 0 else ', send %d fails: its view throws, the lock is released, later views are delivered' % fail),
        name='schedule%s' % ([n] + list(plan) + ([] if fail < 0 else ['fail', fail]),))(f)


for _a in range(6):
    for _b in range(6):
        schedule(1, (_a, _b))
for _p in ((0, 2, 0, 2), (2, 3, 2, 3), (1, 2, 3, 4), (2, 0, 0, 1), (0, 0, 2, 2), (4, 5, 4, 5), (0, 3, 0, 3), (5, 4, 1, 1), (0, 1, 2, 0)):
    schedule(2, _p)
schedule(2, (0, 0, 0, 0), 0)
schedule(2, (0, 0, 0, 0), 1)
schedule(1, (0, 0), 0)


@P.contract('viewing and flushing without a client are rejected; the lock is released; what was rejected is not delivered to a client set later')
def no_client(c):
    prepare(c)
    o = c.call('h_view_noclient', nio=6)
    c.no_throw(o)
    c.ieq(o.io[0], 1, 'viewing throws')
    c.ieq(o.io[1], 1, 'flushing throws')
    c.ieq(o.io[2], 0, 'lock discipline after viewing')
    c.ieq(o.io[3], 0, 'lock discipline after flushing')
    c.ieq(o.io[4], 1, 'a client set later gets only what is viewed from then on')
    c.ieq(o.io[5], 7, 'and gets that')


for _h in (1, 2):
    for _k in range(7):
        @P.contract('the VIEW macro %s of a %s: one primitive with that payload and name and the place of the macro; its arguments are evaluated once' % (
            ('', 'with a name', 'with a streamed name')[_h], KINDS[_k]), name='macro[%d,%s]' % (_h, KINDS[_k]), bound=None)
        def macro(c, h=_h, k=_k):
            prepare(c)
            p = Prim(c, 'p', k, [3, 16, 1, 20, 5, 2, 15][k], 0)
            o = c.call('h_view_macro', x=p.x, k=p.k + [h], b=p.b, no=26, nio=15, nbo=96)
            c.no_throw(o)
            c.ieq(o.io[8], 1, 'primitives delivered')
            c.ieq(o.io[9], 1, 'updates sent')
            c.ieq(o.io[10], 0, 'lock discipline')
            c.ieq(o.io[4], o.io[11], 'line of the macro')
            c.ieq(o.io[12], 1, 'file of the macro')
            p.line, p.file, p.ftext = o.io[11], o.io[3], []
            p.id = [o.bo[i] for i in range(16)]
            same(c, o, p)
            c.ieq(o.io[13], 2, 'arguments evaluated once')
            c.ieq(o.io[14], 3, 'and delivered')

for _k in range(7):
    @P.contract('view << %s << %s: two primitives in that order' % (KINDS[_k], KINDS[(_k + 2) % 7]), name='chain[%s]' % KINDS[_k], bound=None)
    def chain(c, k=_k):
        prepare(c)
        ps = [Prim(c, 'p', k), Prim(c, 'q', (k + 2) % 7)]
        o = c.call('h_view_chain', x=ps[0].x + ps[1].x, k=ps[0].k + ps[1].k, b=ps[0].b + ps[1].b, no=52, nio=18, nbo=192)
        c.no_throw(o)
        c.ieq(o.io[16], 2, 'primitives delivered')
        c.ieq(o.io[17], 0, 'lock discipline')
        for i, p in enumerate(ps):
            p.line, p.file, p.ftext = 0, 12, list(b'Unknown file')
            p.id = [o.bo[96 * i + j] for j in range(16)]
            same(c, o, p, i, 8 * i, 'primitive %d: ' % i)


@P.contract('up to 300 views of one thread, other threads acting before its lock acquisitions, some sends failing: nothing lost or delivered twice, order kept',
            name='many', bound=None, samples=40, bounded_samples=40, bounded_only='long histories of views: executed natively with random schedules and failures')
def many(c):
    r = c.rng
    n = c.int('n', 1, 300, (3, 4, 8, 9, 16, 17, 33, 65, 100, 129, 257))
    period = c.int('period', 1, 12)
    plan = [r.randrange(6) if r.random() < .6 else 0 for _ in range(period)]
    every = c.int('fail', 0, 7, (0, 0, 0, 1, 2, 5))
    o = c.call('h_view_many', k=[n, 0, every, period] + plan, nio=6)
    c.no_throw(o)
    if every == 0:
        c.ieq(o.io[0], 0, 'no view fails')
    c.ieq(o.io[1], 0, 'nothing lost')
    c.ieq(o.io[2], 0, 'nothing delivered twice')
    c.ieq(o.io[3], 0, 'order of arrival')
    c.ieq(o.io[4], 0, 'delivered when the call returns')
    c.ieq(o.io[5], 0, 'lock discipline')
