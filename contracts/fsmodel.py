"""Assumed contracts of the C++ library's file system and stream functions, over a ghost directory tree."""
import re
from irv import ir
from irv.engine import Ptr, NULL, Unsupported
from irv.models import put_string, text_of


class FS:
    """files: path -> list of characters; dirs: the directories that exist"""

    def __init__(self, c, dirs=('/', '/s')):
        self.files, self.dirs = {}, set(dirs)
        self.st = {}            # stream objects by address
        self.c = c
        E = c.E
        P = r'std::filesystem::__cxx11::path'
        C = r'<char, std::char_traits<char>( ?)>'
        tab = [
            (P + r'::_List::_List\(', self.list_ctor),
            (P + r'::_List::operator=\(', lambda E, a, n: a[0]),
            (P + r'::_List::clear\(|' + P + r'::_List::~_List|' + P + r'::_M_split_cmpts\(\)|_List::_Impl_deleter::operator\(\)', lambda E, a, n: None),
            (P + r'::parent_path\(\) const$', self.parent),
            (P + r'::operator/=\(' + P, self.slash),
            (r'^(?:.* )?std::filesystem::(exists|is_regular_file|is_directory)\(' + P + r' const&\)$', self.exists),
            (r'^std::filesystem::status\(' + P + r' const&\)$', self.status),
            (r'^std::filesystem::(remove_all|remove)\(' + P + r' const&(, std::error_code&)?\)$', self.remove),
            (r'^std::filesystem::(create_directories|create_directory)\(' + P + r' const&(, std::error_code&)?\)$', self.mkdirs),
            (r'std::(__cxx11::)?basic_[io]?(f|string)stream<char.*>::basic_[io]?(f|string)stream(<[^()]*>)?\(', self.ctor),
            (r'std::(__cxx11::)?basic_[io]?(f|string)stream<char.*>::~basic_', self.dtor),
            (r'std::basic_[io]?fstream<char.*>::open(<[^()]*>)?\(', self.open),
            (r'std::basic_[io]?fstream<char.*>::close\(', self.close),
            (r'std::basic_[io]?fstream<char.*>::is_open\(', self.is_open),
            (r'std::basic_ios<char.*>::(good|operator bool|operator!|fail|bad)\(', self.good),
            (r'std::(__cxx11::)?basic_[io]?(f|string)stream<char.*>::rdbuf\(\) const', lambda E, a, n: a[0]),
            (r'std::(__cxx11::)?basic_[io]?stringstream<char.*>::str(\[abi:cxx11\])?\(\) const', self.str),
            (r'std::basic_ostream<char.*>::operator<<\(std::basic_streambuf', self.copy),
            (r'std::basic_ostream<char.*>::operator<<\((int|long|unsigned.*|bool|double)\)$', lambda E, a, n: a[0]),
            (r'std::basic_ostream<char.*>::operator<<\(std::basic_(ostream|ios)|std::basic_ostream<char.*>::operator<<\(std::ios_base|'
             r'^std::basic_ostream<char.*>& std::(endl|flush)<', lambda E, a, n: a[0]),
            (r'^std::basic_ostream<char.*>& std::__ostream_insert<char', self.insert),
            (r'^std::basic_ostream<char.*>& std::operator<< ?<(char, )?std::char_traits<char>.*>\(std::basic_ostream<char.*>&, (std::__cxx11::basic_string|char const\*|std::basic_string_view)', self.put),
            (r'^std::basic_ostream<char.*>& std::operator<< ?<std::char_traits<char> ?>\(std::basic_ostream<char.*>&, char\)', self.putc),
        ]
        E.overrides = E.overrides + [(re.compile(p if p.startswith('^') else r'(?:[\w:<>, ]+ )?(?:' + p + ')'), self.named(f)) for p, f in tab]
        E._ov = {}
        c.note_contract('std::filesystem and file streams over a ghost directory tree (files keep exactly what was written; opening for writing '
                        'truncates and needs the directory)')

    # ---- helpers
    @staticmethod
    def named(f):
        def g(E, a, n):
            d = E.mod.funcs.get(n)
            return f(E, a, d.demangled if d else n)
        return g

    def key(self, p):
        return (p.obj.id, p.off)

    def string(self, E, p):
        d = E.load(p, ir.PTR)
        n = E.toint(E.get(p.obj, p.off + 8, 8))
        return text_of(E, d, n)

    def path(self, E, p):
        t = [E.toint(x) for x in self.string(E, p)]
        if not all(isinstance(x, int) for x in t):
            raise Unsupported('symbolic path')
        return bytes(x & 255 for x in t).decode('latin1')

    def cpath(self, E, p):
        s = []
        i = 0
        while True:
            ch = E.toint(E.get(p.obj, p.off + i, 1))
            if not isinstance(ch, int):
                raise Unsupported('symbolic path')
            if ch == 0:
                return ''.join(s)
            s.append(chr(ch & 255))
            i += 1

    def mkpath(self, E, p, s):
        put_string(E, p, list(s.encode('latin1')))
        E.store(NULL, Ptr(p.obj, p.off + 32), ir.PTR)

    # ---- paths
    def list_ctor(self, E, a, n):
        E.store(NULL, a[0], ir.PTR)

    def parent(self, E, a, n):
        s = self.path(E, a[1])
        self.mkpath(E, a[0], s.rsplit('/', 1)[0] if '/' in s else '')

    def slash(self, E, a, n):
        s, t = self.path(E, a[0]), self.path(E, a[1])
        put_string(E, a[0], list((t if t.startswith('/') else s + ('' if s.endswith('/') or not s else '/') + t).encode('latin1')))
        return a[0]

    def kind(self, s):
        return 1 if s in self.files else 2 if s in self.dirs else 0

    def exists(self, E, a, n):
        k = self.kind(self.path(E, a[0]))
        return k == 1 if 'regular' in n else k == 2 if 'is_directory' in n else k != 0

    def status(self, E, a, n):
        # file_status {file_type, perms} is returned in a register: regular 1, directory 2, not_found -1
        k = self.kind(self.path(E, a[0]))
        t = {1: 1, 2: 2, 0: 0xff}[k]
        return t | (0o644 << 32)

    def remove(self, E, a, n):
        s = self.path(E, a[0])
        k = len(self.files) + len(self.dirs)
        if 'remove_all' in n:
            self.files = {p: v for p, v in self.files.items() if p != s and not p.startswith(s + '/')}
            self.dirs = {p for p in self.dirs if p != s and not p.startswith(s + '/')}
        else:
            self.files.pop(s, None)
        return k - len(self.files) - len(self.dirs) if 'remove_all' in n else k != len(self.files) + len(self.dirs)

    def mkdirs(self, E, a, n):
        s = self.path(E, a[0])
        new = s not in self.dirs
        while s and s not in self.dirs:
            self.dirs.add(s)
            if 'directories' not in n:
                break
            s = s.rsplit('/', 1)[0]
        return new

    # ---- streams
    def ctor(self, E, a, n):
        m = re.search(r'basic_([io]?)(f|string)stream<char.*>::basic_', n)
        s = dict(kind=m.group(1), file=m.group(2) == 'f', name=None, text=[], ok=True, open=False)
        if s['file'] and not s['kind']:
            raise Unsupported('std::fstream')
        self.st[self.key(a[0])] = s
        args = n[n.rindex('::basic_'):]
        if s['file'] and len(a) > 1 and ('path' in args or 'char const*' in args or 'basic_string' in args.split('(', 1)[1]):
            # the complete-object constructor: this, name, mode
            self.do_open(E, s, a[1], n, a[2] if len(a) > 2 else None)
        elif not s['file'] and 'basic_string<char' in args.split('(', 1)[1]:
            raise Unsupported('string stream over a text')

    def do_open(self, E, s, p, n, mode):
        sig = n[n.rindex('('):]
        name = self.cpath(E, p) if 'char const*' in sig else self.path(E, p)
        if mode is not None:
            m = E.toint(mode)
            if not isinstance(m, int):
                raise Unsupported('symbolic open mode')
        else:
            m = 0
        if s['kind'] == 'o':
            if m & 1:      # append
                raise Unsupported('append mode')
            if name.rsplit('/', 1)[0] not in self.dirs or name in self.dirs:
                s['ok'] = False
                return
            self.files[name] = []
        elif name not in self.files:
            s['ok'] = False
            return
        s['name'], s['open'] = name, True

    def open(self, E, a, n):
        self.do_open(E, self.of(a[0]), a[1], n, a[2] if len(a) > 2 else None)

    def of(self, p):
        s = self.find(p)
        if s is None:
            raise Unsupported('unknown stream')
        return s

    def find(self, p):
        s = self.st.get(self.key(p))
        if s is None:                   # the output half of a stream that reads and writes
            s = self.st.get((p.obj.id, p.off - 16))
            if s is not None and s['kind'] != '':
                s = None
        return s

    def close(self, E, a, n):
        s = self.of(a[0])
        if not s['open']:
            s['ok'] = False
        s['open'] = False

    def is_open(self, E, a, n):
        return self.of(a[0])['open']

    def good(self, E, a, n):
        raise Unsupported('stream state')

    def dtor(self, E, a, n):
        self.st.pop(self.key(a[0]), None)

    def write(self, p, chars):
        s = self.find(p)
        if s is None:
            if p.obj.kind in ('stack', 'heap', 'alloca'):
                raise Unsupported('unknown stream')
            return p               # std::cout and the like
        if not s['file']:
            s['text'] = s['text'] + chars
        elif s['open'] and s['kind'] == 'o':
            self.files[s['name']] = self.files[s['name']] + chars
        return p

    def insert(self, E, a, n):
        return self.write(a[0], text_of(E, a[1], a[2]))

    def put(self, E, a, n):
        if 'char const*' in n[n.rindex(','):]:
            return self.write(a[0], [ord(ch) for ch in self.cpath(E, a[1])])
        if 'string_view' in n[n.rindex('basic_ostream'):]:
            return self.write(a[0], text_of(E, a[2], a[1]))
        return self.write(a[0], self.string(E, a[1]))

    def putc(self, E, a, n):
        return self.write(a[0], [a[1]])

    def str(self, E, a, n):
        put_string(E, a[0], list(self.of(a[1])['text']))

    def copy(self, E, a, n):
        s = self.of(a[1])
        if not s['open']:
            return a[0]
        return self.write(a[0], list(self.files[s['name']]))
