"""Event schedules (std::priority_queue executed as it is, libstdc++ heap code included)."""
import re
from irv import ir
from irv.engine import Ptr, Unsupported
from .registry import Property
from .c09 import install
from .c14 import MAX, MIN, SPECIAL

P = Property('C17', ['h_sched.cc'])
NMAX = 5


def histories(n):
    """all histories of n schedules and n removals in which nothing is removed from an empty schedule"""
    out = []

    def go(s, a, b):
        if b == n:
            out.append(s)
            return
        if a < n:
            go(s + 'S', a + 1, b)
        if b < a:
            go(s + 'R', a, b + 1)
    go('', 0, 0)
    return out


def run(c, h, entry, ops, ts, ps):
    n = len(ops)
    k = [n]
    j = 0
    for o in ops:
        if o == 'S':
            k += [1, ts[j], ps[j]]
            j += 1
        else:
            k += [0, 0, 0]
    o = c.call(entry, k=k, nio=4 * n)
    c.no_throw(o)
    live = []
    j = 0
    for i, op in enumerate(ops):
        c.ieq(o.io[4 * i], 0, 'step %d (%s) does not throw' % (i, op))
        if op == 'S':
            # keep the live events sorted by (time, order of scheduling)
            p = len(live)
            while p > 0 and c.branch(ts[j] < ts[live[p - 1]]):
                p -= 1
            live.insert(p, j)
            j += 1
        else:
            live.pop(0)
        c.ieq(o.io[4 * i + 1], len(live), 'step %d (%s): size' % (i, op))
        if live:
            c.ieq(o.io[4 * i + 2], ts[live[0]], 'step %d (%s): time of the top event' % (i, op))
            c.ieq(o.io[4 * i + 3], ps[live[0]], 'step %d (%s): payload of the top event' % (i, op))


for _n in range(1, NMAX + 1):
    for _h in histories(_n):
        @P.contract('history %s, all 64-bit times and payloads: the top is always the earliest live event, first scheduled first among ties' % _h,
                    name='history[%s]' % _h, tier='quick' if _n < NMAX else 'thorough',
                    bound='histories of at most %d schedules (5 in the thorough tier)' % (NMAX - 1))
        def hist(c, h=_h, n=_n):
            ts = [c.int('t%d' % i, special=SPECIAL) for i in range(n)]
            ps = [c.int('p%d' % i) for i in range(n)]
            if not c.symbolic and c.rng.random() < .7:
                # many ties
                ts = [c.rng.choice(ts[:2] + [1, 2]) for _ in ts]
            for e in ('h_sched', 'h_sched8') if n <= 3 else ('h_sched',):
                run(c, h, e, h, ts, ps)


@P.contract('an 8-bit schedule accepts exactly 255 events in its lifetime; further ones are rejected and change nothing; ties stay first-in-first-out')
def lifetime_limit(c):
    t = c.int('t', special=SPECIAL)
    for n, every in ((254, 0), (255, 0), (256, 0), (258, 0), (255, 2), (256, 3), (260, 1)):
        o = c.call('h_sched_limit', k=[n, t, every], nio=6)
        c.no_throw(o)
        popped = 0 if not every else min(n // every, 255)
        if every == 1:
            popped = 255
        c.ieq(o.io[0], max(0, n - 255), 'rejected')
        c.ieq(o.io[2], popped, 'removed')
        c.ieq(o.io[1], min(n, 255) - popped, 'size')
        c.ieq(o.io[3], min(n, 255) - popped, 'drained in order')
        c.ieq(o.io[4], 0, 'nothing left')
        c.ieq(o.io[5], 255, 'documented limit')


# ---- schedules of any length
def random_history(c, entry, most):
    """native runs: long histories with many ties"""
    n = c.int('n', 1, most, (most, 17, 64, 65, 128, 200))
    r = c.rng
    span = r.choice([1, 2, 5, 1000, 1 << 62])
    ops, ts, ps, live = '', [], [], 0
    rate = r.choice([.3, .5, .8])
    for i in range(n):
        if live and r.random() > rate:
            ops, live = ops + 'R', live - 1
        else:
            ops, live = ops + 'S', live + 1
            ts.append(r.randrange(-span, span + 1))
            ps.append(r.randrange(-1000, 1000))
    run(c, None, entry, ops + 'R' * live, ts, ps)


HEAP = re.compile(r'(?:[^()]*\s)?std::(push_heap|pop_heap)<')
for _w in (64, 8):
    @P.contract('a %d-bit schedule after any history: scheduling is rejected exactly when the lifetime limit is reached and then changes nothing; otherwise the event '
                'joins the queue with its time and payload, ordered after every earlier event of the same time and otherwise by time, in both directions of '
                'the comparison; the top is the front of the queue and removing takes exactly one' % _w, name='any_history[%d]' % _w, soft=True, samples=40)
    def any_history(c, w=_w):
        if not c.symbolic:
            return random_history(c, 'h_sched' if w == 64 else 'h_sched8', 400 if w == 64 else 120)
        E, W = c.E, str(w)
        size = E.toint(E.call('irv_sc_size_' + W, []))
        s = Ptr(E.new_obj(size, 'heap', 'schedule'), 0)
        calls = []
        real = [False]

        def heap(E, args, name):
            if real[0]:
                return E.run(E.mod.funcs[name], args)
            c.note_assumed('std::push_heap and std::pop_heap over a long range with a strict weak order: the front is an extreme element (their code is executed in the bounded histories)')
            calls.append((name, args))
        install(c, [(HEAP, heap)])
        words = range(0, size, w // 8)

        def look():
            out = {}
            for o in words:
                try:
                    v = E.load(Ptr(s.obj, o), ir.IntTy(w))
                except Exception:
                    continue
                if isinstance(v, int):
                    out[o] = v
            return out
        E.call('irv_sc_new_' + W, [s])
        a = look()
        t0, p0 = c.int('t0', special=SPECIAL), c.int('p0')
        c.ieq(E.call('irv_sc_add_' + W, [s, t0, p0]), 0, 'first event accepted')
        b = look()
        ch = [o for o in a if o in b and b[o] == a[o] + 1]
        if len(ch) != 1 or len(calls) != 1:
            raise Unsupported('a schedule that is not a binary heap with a counter')
        at = Ptr(s.obj, ch[0])
        # any number of events have been scheduled
        n1 = c.int('n1', 1, 2 ** w - 1)
        E.store(n1, at, ir.IntTy(w))
        t1, p1 = c.int('t1', special=SPECIAL), c.int('p1')
        r = E.call('irv_sc_add_' + W, [s, t1, p1])
        if c.branch(n1 == 2 ** w - 1):
            c.ieq(r, 1, 'rejected at the limit')
            c.ieq((E.load(at, ir.IntTy(w)) - (n1)) % 2 ** w, 0, 'counter unchanged')
            c.ieq(len(calls), 1, 'nothing queued')
            c.ieq(E.call('irv_sc_count_' + W, [s]), 1, 'size unchanged')
            return
        c.ieq(r, 0, 'accepted below the limit')
        c.ieq((E.load(at, ir.IntTy(w)) - (n1 + 1)) % 2 ** w, 0, 'counter')
        n2 = c.int('n2', 1, 2 ** w - 1)
        c.assume(c.And(n2 > n1, n2 < 2 ** w - 1))
        E.store(n2, at, ir.IntTy(w))
        t2, p2 = c.int('t2', special=SPECIAL), c.int('p2')
        c.ieq(E.call('irv_sc_add_' + W, [s, t2, p2]), 0, 'accepted below the limit')
        c.ieq((E.load(at, ir.IntTy(w)) - (n2 + 1)) % 2 ** w, 0, 'counter')
        c.ieq(len(calls), 3, 'one heap operation per event')
        c.ieq(E.call('irv_sc_count_' + W, [s]), 3, 'size')
        (nm, args) = calls[-1]
        first, last = args[0], args[1]
        step = (last.off - first.off) // 3
        c.ieq(first.off, 0, 'the whole queue is ordered')
        c.ieq(last.off - first.off, 3 * step, 'the whole queue is ordered')
        real[0] = True

        def front(i, j):
            """the real heap code and comparison on the events i and j alone; is j in front?"""
            q = Ptr(E.new_obj(2 * step, 'heap', 'two events'), 0)
            E.memcpy(q, Ptr(first.obj, i * step), step)
            E.memcpy(Ptr(q.obj, step), Ptr(first.obj, j * step), step)
            E.run(E.mod.funcs[nm], [q, Ptr(q.obj, 2 * step)] + list(args[2:]))
            return q

        def top(q):
            # the two events as the only content of the queue
            for k, v in enumerate((q, Ptr(q.obj, 2 * step), Ptr(q.obj, 2 * step))):
                E.store(v, Ptr(s.obj, vecoff + 8 * k), ir.PTR)
            return E.call('irv_sc_time_' + W, [s]), E.call('irv_sc_value_' + W, [s])
        vecoff = None
        for o in range(0, size, 8):
            try:
                v = E.load(Ptr(s.obj, o), ir.PTR)
            except Exception:
                continue
            if isinstance(v, Ptr) and v.obj is first.obj and v.off == 0:
                vecoff = o
        if vecoff is None:
            raise Unsupported('the queue is not held by the schedule')
        keep = [E.load(Ptr(s.obj, vecoff + 8 * k), ir.PTR) for k in range(3)]
        for i, j, (ta, pa), (tb, pb) in ((1, 2, (t1, p1), (t2, p2)), (0, 1, (t0, p0), (t1, p1)), (0, 2, (t0, p0), (t2, p2))):
            for x, y in ((i, j), (j, i)):
                t, v = top(front(x, y))
                if c.branch(tb < ta):
                    c.ieq(t, tb, 'the later scheduled, earlier event comes first')
                    c.ieq(v, pb, 'its payload')
                else:
                    c.ieq(t, ta, 'the event scheduled first comes first')
                    c.ieq(v, pa, 'its payload')
        for k, v in enumerate(keep):
            E.store(v, Ptr(s.obj, vecoff + 8 * k), ir.PTR)
        # removing
        real[0] = False
        calls.clear()
        E.call('irv_sc_pop_' + W, [s])
        c.ieq(len(calls), 1, 'one heap operation per removal')
        c.ieq(calls[0][1][0].off, 0, 'the whole queue is ordered on removal')
        c.ieq(calls[0][1][1].off, 3 * step, 'the whole queue is ordered on removal')
        c.ieq(E.call('irv_sc_count_' + W, [s]), 2, 'one event removed')
        c.ieq((E.load(at, ir.IntTy(w)) - (n2 + 1)) % 2 ** w, 0, 'removing keeps the counter')


@P.contract('a schedule through which up to 2^64 - 1 events have passed: ties stay first-in-first-out, and exactly the events beyond the lifetime limit are rejected',
            name='after_many', bounded_only='the lifetime counter is set to values near the powers of two natively (the proof for every value is any_history)',
            samples=60, bounded_samples=60, bound=None)
def after_many(c):
    r = c.rng
    n = c.int('n', 2, 12, (2, 5, 9))
    top = r.choice([8, 16, 31, 32, 53, 63, 64, 64])
    v = max(4, 2 ** top - 1 - r.randrange(0, n + 2))
    ts = [r.choice([0, 0, 0, 1, -1, r.randrange(-2 ** 62, 2 ** 62)]) for _ in range(n)]
    ps = [r.randrange(-1000, 1000) for _ in range(n)]
    s64 = v - 2 ** 64 if v >= 2 ** 63 else v
    o = c.call('h_sched_far', k=[s64, n] + [y for p in zip(ts, ps) for y in p], nio=3 * n + 2)
    c.no_throw(o)
    if not o.io[0]:
        return
    room = min(n, 2 ** 64 - 1 - v)
    for i in range(n):
        c.ieq(o.io[1 + i], int(i >= room), 'event %d rejected' % i)
    for i, j in enumerate(sorted(range(room), key=lambda j: ts[j])):
        c.ieq(o.io[1 + n + 2 * i], ts[j], 'time of event %d' % i)
        c.ieq(o.io[2 + n + 2 * i], ps[j], 'payload of event %d' % i)
    c.ieq(o.io[3 * n + 1], 0, 'nothing left')


@P.contract('a hundred thousand events come out in order of time, ties in order of scheduling', name='many',
            bounded_only='executed natively', samples=4, bounded_samples=4, bound=None)
def many(c):
    n = c.int('n', 66000, 200000, (70000, 100000))
    st, md = c.rng.choice([(1, 1), (7, 10), (1, 2), (7919, 1 << 40), (104729, 65537)])
    o = c.call('h_sched_many', k=[n, st, md], nio=2)
    c.no_throw(o)
    c.ieq(o.io[0], n, 'removed in order')
    c.ieq(o.io[1], 0, 'left')
