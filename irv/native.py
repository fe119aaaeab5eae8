"""Native execution of harness entry points in a child process."""
import os
import pickle
import struct
import subprocess
import sys

CHILD = r'''
import ctypes, pickle, struct, sys, os
lib = ctypes.CDLL(sys.argv[1])
run = lib.irv_run
run.restype = ctypes.c_int
fin, fout = os.fdopen(int(sys.argv[2]),'rb'), os.fdopen(int(sys.argv[3]),'wb')
fns = {}
buf = ctypes.create_string_buffer(256)
emitn = ctypes.c_int64.in_dll(lib,'irv_emit_n')
emit = (ctypes.c_double*(1<<16)).in_dll(lib,'irv_emit_buf')
while True:
    h = fin.read(4)
    if len(h) < 4: break
    n, = struct.unpack('<I', h)
    name, x, k, b, no, nio, nbo = pickle.loads(fin.read(n))
    f = fns.get(name)
    if f is None:
        f = fns[name] = ctypes.cast(getattr(lib, name), ctypes.c_void_p)
    X=(ctypes.c_double*max(1,len(x)))(*x); K=(ctypes.c_int64*max(1,len(k)))(*k); B=(ctypes.c_uint8*max(1,len(b)))(*b)
    O=(ctypes.c_double*max(1,no))(*([float('nan')]*no)); IO=(ctypes.c_int64*max(1,nio))(); BO=(ctypes.c_uint8*max(1,nbo))()
    emitn.value = 0
    r = run(f, X, K, B, O, IO, BO, buf)
    ne = min(emitn.value, 1<<13)
    raw = bytes(memoryview(emit)[:8*ne]) if ne else b''
    em = [struct.unpack('<4d4q', raw[i*64:i*64+64]) for i in range(ne)]
    d = pickle.dumps((r, buf.value.decode('latin1'), list(O)[:no], list(IO)[:nio], [v if v<128 else v-256 for v in BO][:nbo], em))
    fout.write(struct.pack('<I', len(d))+d); fout.flush()
'''


class Native:
    def __init__(self, so, env=None):
        self.so = so
        self.p = None
        self.env = env
        self.ncalls = 0
        self.errlog = so + '.err%d' % os.getpid()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ)
        if self.env:
            env.update(self.env)
        self.err = open(self.errlog, 'wb')
        self.p = subprocess.Popen([sys.executable, '-c', CHILD, self.so, str(r1), str(w2)], pass_fds=(r1, w2),
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=env)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, 'wb')
        self.r = os.fdopen(r2, 'rb')

    def close(self):
        if self.p:
            try:
                self.w.close()
                self.r.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p = None

    def call(self, name, x, k, b, no, nio, nbo):
        if self.p is None:
            self.start()
        self.ncalls += 1
        d = pickle.dumps((name, x, k, b, no, nio, nbo))
        try:
            self.w.write(struct.pack('<I', len(d)) + d)
            self.w.flush()
            import select
            rd, _, _ = select.select([self.r], [], [], 20)
            if not rd:
                self.close()
                return ('hang', 'no answer after 20 s', [], [], [], [])
            h = self.r.read(4)
            if len(h) < 4:
                raise BrokenPipeError
            n, = struct.unpack('<I', h)
            r, msg, o, io, bo, em = pickle.loads(self.r.read(n))
        except (BrokenPipeError, EOFError, OSError):
            self.p.wait()
            rcode = self.p.returncode
            try:
                tail = open(self.errlog, 'rb').read()[-1500:].decode('latin1')
            except OSError:
                tail = ''
            self.close()
            return ('crash', 'exit %s: %s' % (rcode, tail[-600:]), [], [], [], [])
        if r == 0:
            return ('ret', None, o, io, bo, em)
        if r == 1:
            return ('throw', 'assert', [], [], [], em)
        if r == 4:
            return ('throw', 'invalid_argument', [], [], [], em)
        return ('throw', msg, [], [], [], em)
