"""The device-code authentication client."""
from .registry import Property
from .lib import *
from .fsmodel import FS

P = Property('C28', ['h_auth.cc'], ldflags=['-Wl,-Bsymbolic'], once=True,
             bound='histories of at most 5 operations, at most 6 answered polls, tokens of the listed lengths',
             assumptions=['the cpr library (not installed) is replaced by a stand-in that hands every POST to a scripted server',
                          'JSON formatting and parsing of libprotobuf are inverse to each other and replace the whole message (symbolic run: '
                          'stood in for; native run: the real library)',
                          'time advances only while a request is answered and while the client sleeps'])
T = 24
S = 1000000000
GET, REFRESH, NEW, WRITE, DELETE = 1, 2, 3, 4, 5


def txt(c, tag, n):
    return [c.int('%s%d' % (tag, i), 32, 126) for i in range(n)]


def pad(t, n=T):
    return t + [0] * (n - len(t))


class World:
    def __init__(self, c, ops, polls=(), file=None, repl=None, status=200, expires=None, interval=None, lat=None, readable=1, dirs=0, pre=None):
        """polls: (error, length of the token or -1, readable)"""
        self.c, self.ops = c, ops
        self.code = txt(c, 'dc', 4)
        self.cfg = [txt(c, x, 4) for x in ('srv', 'cid', 'sco', 'aud')]
        self.polls = [(e, None if n < 0 else txt(c, 'tok%d.' % i, n), r) for i, (e, n, r) in enumerate(polls)]
        self.lat = [c.int('lat%d' % i, 0, 5 * S) if lat is None else lat for i in range(len(polls) + 1)]
        self.expires = c.int('expires', 1, 100000) if expires is None else expires
        self.interval = c.int('interval', 0, 20) if interval is None else interval
        self.file = None if file is None else txt(c, 'file', file)
        self.repl = None if repl is None else txt(c, 'repl', repl)
        self.status, self.readable = status, readable
        k = [status, self.expires, self.interval, self.lat[0], readable, 0, 0, 0]
        for i in range(6):
            if i < len(polls):
                e, t, r = self.polls[i]
                k += [e, -1 if t is None else len(t), self.lat[i + 1], r]
            else:
                k += [1, -1, 1 << 61, 1]
        k += [len(ops)] + list(ops) + [0] * (5 - len(ops))
        k += [int(file is not None), file or 0, repl or 0, dirs]
        b = pad(self.code)
        for i in range(6):
            b = b + pad(self.polls[i][1] or [] if i < len(polls) else [])
        b = b + pad(self.file or []) + pad(self.repl or []) + pad(sum(self.cfg, []))
        if pre:
            pre(self)
        if c.symbolic:
            FS(c)
        self.o = c.call('h_auth', k=k, b=b, nio=31, nbo=26 * T)
        c.no_throw(self.o)
        c.ieq(self.o.io[17], 0, 'only the two documented requests, well formed')
        c.ieq(self.o.io[20], 0, 'nothing outside the token path is removed')

    def text(self, n, off, want, label):
        self.c.ieq(self.o.io[n], len(want), label + ': length')
        for i, ch in enumerate(want[:T] if off + 2 * T <= 6 * T else want[:2 * T]):
            self.c.ieq(self.o.bo[off + i], ch if isinstance(ch, int) is False else ch, '%s[%d]' % (label, i))

    def got(self, i, want, label='token'):
        """operation i returned this token"""
        self.c.ieq(self.o.io[3 * i], 1, label + ': returned')
        self.text(3 * i + 1, T * i, want, label)

    def threw(self, i, label):
        self.c.ieq(self.o.io[3 * i], 2, label + ': rejected')

    def contacts(self, i, n, label='requests to the server'):
        self.c.ieq(self.o.io[3 * i + 2], n, label)

    def disk(self, want):
        if want is None:
            self.c.ieq(self.o.io[18], 0, 'no token file')
            return
        self.c.ieq(self.o.io[18], 1, 'token file present')
        self.text(19, 5 * T, want, 'token file')

    def requests(self, polled=True):
        B = lambda s: list(s.encode())
        srv, cid, sco, aud = self.cfg
        for i, w in enumerate((srv + B('/oauth/device/code'), cid, sco, aud)):
            self.text(21 + i, (6 + 2 * i) * T, w, ('code request: address', 'client id', 'scope', 'audience')[i])
        if polled:
            for i, w in enumerate((srv + B('/oauth/token'), B('urn:ietf:params:oauth:grant-type:device_code'), self.code, cid)):
                self.text(25 + i, (14 + 2 * i) * T, w, ('poll: address', 'grant type', 'device code', 'client id')[i])
        for i, w in enumerate((B('Content-Type'), B('application/json'))):
            self.text(29 + i, (22 + 2 * i) * T, w, 'content type header')


for _n in (0, 1, 15, 16, 20):
    @P.contract('a token file of %d characters is the token: no server contact, file kept; from then on a non-empty token is kept in memory' % _n,
                name='from_file[%d]' % _n)
    def from_file(c, n=_n):
        w = World(c, (GET, WRITE, GET, NEW, GET), [(0, 3, 1)], file=n, repl=5)
        w.got(0, w.file)
        w.got(2, w.file if n else w.repl)
        w.got(4, w.repl)
        w.contacts(4, 0)
        w.disk(w.repl)

    @P.contract('no token file: the device-code flow gives the token (%d characters), which is saved and used from memory and by later clients' % _n,
                name='fetched[%d]' % _n)
    def fetched(c, n=_n):
        w = World(c, (GET, GET, NEW, GET), [(0, n, 1)], lat=0, dirs=n % 2)
        if n == 0:
            w.threw(0, 'empty token')
            w.disk(None)
            return
        w.got(0, w.polls[0][1])
        w.contacts(0, 2)
        w.got(1, w.polls[0][1], 'from memory')
        w.got(3, w.polls[0][1], 'from the saved file')
        w.contacts(3, 2)
        w.disk(w.polls[0][1])
        w.requests()

    @P.contract('a token in memory (%d characters) is returned although the file is gone' % _n, name='memory[%d]' % _n)
    def memory(c, n=_n):
        w = World(c, (GET, DELETE, GET), [(0, 3, 1)], file=n, lat=0)
        w.got(0, w.file)
        if n:
            w.got(2, w.file)
            w.contacts(2, 0)
            w.disk(None)
        else:
            w.got(2, w.polls[0][1])
            w.disk(w.polls[0][1])


@P.contract('refresh forgets the token in memory and on disk: the next request fetches a new one')
def refresh(c):
    w = World(c, (GET, REFRESH, GET, GET), [(0, 7, 1)], file=4, lat=0, dirs=1)
    w.got(0, w.file)
    w.contacts(1, 0)
    w.got(2, w.polls[0][1])
    w.contacts(3, 2)
    w.got(3, w.polls[0][1])
    w.disk(w.polls[0][1])


@P.contract('refresh leaves no token file, also when there was none, and twice')
def refresh_only(c):
    w = World(c, (REFRESH, NEW, REFRESH), file=3)
    w.contacts(2, 0)
    w.disk(None)


@P.contract('two fetches with a refresh between them: the second token replaces the first everywhere')
def refetched(c):
    w = World(c, (GET, REFRESH, GET, NEW, GET), [(0, 18, 1), (0, 5, 1)], lat=0, dirs=1)
    w.got(0, w.polls[0][1])
    w.got(2, w.polls[1][1])
    w.got(4, w.polls[1][1])
    w.contacts(4, 4)
    w.disk(w.polls[1][1])
    w.requests()


@P.contract('a device-code answer with any status but 200 is rejected: nothing polled, nothing saved')
def bad_status(c):
    s = c.int('status', -1, 600, special=(201, 401, 404, 500, 199))
    c.assume(s != 200)
    w = World(c, (GET, NEW), [(0, 5, 1)], status=s)
    w.threw(0, 'status')
    w.contacts(0, 1)
    w.disk(None)


@P.contract('an unreadable answer is rejected: nothing saved')
def unreadable(c):
    w = World(c, (GET, GET), [(0, 5, 1)], readable=0)
    w.threw(0, 'unreadable device code')
    w.threw(1, 'unreadable device code')
    w.disk(None)


@P.contract('an unreadable poll answer is rejected: nothing saved, and the next request starts over')
def unreadable_poll(c):
    w = World(c, (GET, GET), [(0, 5, 0), (0, 6, 1)], lat=0)
    w.threw(0, 'unreadable poll')
    w.got(1, w.polls[1][1])
    w.contacts(1, 4)
    w.disk(w.polls[1][1])


@P.contract('an answer without error and without token is rejected: nothing saved, and the next request starts over')
def no_token(c):
    w = World(c, (GET, GET), [(0, -1, 1), (0, 6, 1)], lat=0)
    w.threw(0, 'no token')
    w.got(1, w.polls[1][1])
    w.disk(w.polls[1][1])


for _n in range(4):
    @P.contract('the client polls while the server reports an error (%d times), as long as the device code is valid; a token that comes with an error is '
                'not used; after that it fails and saves nothing' % _n, name='polling[%d]' % _n)
    def polling(c, n=_n):
        late = []

        def pre(w):
            # the i-th poll after the first starts at t: the device code must not have expired
            t = 0
            for i in range(1, n + 1):
                t = t + w.lat[i] + w.interval * S
                c.assume(t != w.expires * S)
                late.append(t > w.expires * S)
        w = World(c, (GET,), [(1, 4 if i % 2 else -1, 1) for i in range(n)] + [(0, 9, 1)], pre=pre)
        late = c.Or(*late) if late else False
        if late is not False and c.branch(late):
            w.threw(0, 'expired')
            w.disk(None)
            return
        w.got(0, w.polls[n][1])
        w.contacts(0, n + 2)
        w.disk(w.polls[n][1])
        w.requests()


@P.contract('a server that never grants the token makes the request fail; nothing is saved and nothing kept')
def never(c):
    w = World(c, (GET, GET), [(1, -1, 1), (1, 5, 1)])
    w.threw(0, 'never granted')
    w.threw(1, 'never granted')
    w.disk(None)


@P.contract('a code that has expired when it arrives is not polled for')
def dead_code(c):
    e = c.int('e', -100, 0)
    w = World(c, (GET,), [(0, 5, 1)], expires=e)
    w.threw(0, 'expired')
    w.disk(None)
