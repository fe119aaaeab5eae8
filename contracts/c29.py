"""The HTTP view client."""
import re
from .registry import Property
from .lib import *
from .fsmodel import FS
from . import c19
from irv.engine import Ptr

P = Property('C29', ['h_vclient.cc'], once=True,
             bound='at most 3 updates of at most 2 primitives, session and base texts of the listed lengths',
             assumptions=c19.P.assumptions + [
                 'the cpr library (not installed) is replaced by a stand-in that hands every POST to a scripted server; the authentication client is scripted (C28 is about the real one)',
                 'serialising a message and parsing it again restores it (symbolic run: assumed; native run: the real library); glog writes nothing else'])


def world(c):
    if not c.symbolic:
        return
    FS(c)
    E = c.E
    home = E.new_obj(8, 'global', 'home')
    for i, ch in enumerate(b'/s/home\0'):
        E.put(home, i, 1, ch)
    log = E.new_obj(512, 'global', 'log')
    tab = [(r'getenv$', lambda E, a, n: Ptr(home, 0)),
           (r'google::LogMessage(Fatal)?::~?LogMessage(Fatal)?\(', lambda E, a, n: None),
           (r'google::LogMessage::stream\(\)', lambda E, a, n: Ptr(log, 0))]
    E.overrides = E.overrides + [(re.compile(p), f) for p, f in tab]
    E._ov = {}


B = lambda s: list(s.encode())


def client(sizes, nbase, nsess):
    def f(c):
        world(c)
        base = [c.int('base%d' % i, 33, 126) for i in range(nbase)]
        name = [c.int('sess%d' % i, 48, 122) for i in range(nsess)]
        sess = ([34] + name + [34, 10]) if nsess % 2 else name
        st = [c.int('status%d' % i, 0, 600, special=(200, 201, 401, 201, 401, 404)) for i in range(4 * len(sizes))]
        toks = [[c.int('tok%d.%d' % (i, j), 33, 126) for j in range(4)] for i in range(8)]
        ids = [c.bytes('id%d' % i) for i in range(2 * len(sizes))]
        k = st + [500] * (12 - len(st)) + [len(sess), nbase, len(sizes)] + list(sizes) + [0] * (4 - len(sizes))
        b = sum(toks, []) + [0] * 32 + sess + [0] * (32 - len(sess)) + base + [0] * (32 - nbase) + sum(ids, [])
        o = c.call('h_vclient', k=k, b=b, nio=96, nbo=256 * 10)
        c.no_throw(o)
        state = dict(i=0, r=0)

        def post(url, body, what):
            i = state['i']
            state['i'] += 1
            q, p = 8 + 8 * i, 256 * i
            def text(n, off, want, label):
                c.ieq(o.io[n], len(want), '%s: length of the %s' % (what, label))
                for j, ch in enumerate(want):
                    c.ieq(o.bo[off + j], ch, '%s: %s[%d]' % (what, label, j))
            text(q, p, url, 'address')
            c.ieq(o.io[q + 3], 1, what + ': carries a token')
            text(q + 1, p + 48, toks[state['r']], 'token')
            if body is None:
                c.ieq(o.io[q + 4], 0, what + ': no body')
            else:
                text(q + 2, p + 64, B('application/octet-stream'), 'content type')
                if body:
                    c.ieq(o.io[q + 4], 1, what + ': the update is the body')
                c.ieq(o.io[q + 5], len(body), what + ': primitives')
                for j, x in enumerate(body):
                    c.holds(c.beq([o.bo[p + 128 + 16 * j + l] for l in range(16)], x), what + ': primitive %d' % j)
            return st[i]

        def tried(url, body, what):
            s = post(url, body, what)
            if c.branch(s == 401):
                state['r'] += 1
                s = post(url, body, what + ' again with a fresh token')
            return c.branch(s == 201)
        if nbase == 0:
            for u in range(len(sizes)):
                c.ieq(o.io[u], 3, 'no address: rejected')
            c.ieq(o.io[4], 0, 'nothing is sent')
            return
        session, n = False, 0
        for u, m in enumerate(sizes):
            if not session:
                session = tried(base + B('/view/sessions'), None, 'new session')
                if not session:
                    c.ieq(o.io[u], 2, 'no session: bad status')
                    continue
            ok = tried(base + B('/view/sessions/') + name + B('/updates/%d' % n), ids[2 * u:2 * u + m], 'update %d' % u)
            n += 1
            c.ieq(o.io[u], 1 if ok else 2, 'status of update %d' % u)
        c.ieq(o.io[4], state['i'], 'number of requests')
        c.ieq(o.io[5], state['r'], 'number of token refreshes')
    return f


for _s, _b, _n in (((1,), 0, 3), ((1,), 6, 3), ((2, 1), 5, 4), ((0, 2), 5, 3), ((1, 0, 2), 4, 5), ((1, 2), 1, 8)):
    P.contract('updates of %s primitives (base address of %d characters, session name of %d): one session, every update posted once under the next number with the '
               'current token; a 401 answer gives one retry with a fresh token; okay exactly on 201' % (list(_s), _b, _n),
               name='client%s[%d,%d]' % (list(_s), _b, _n))(client(_s, _b, _n))
