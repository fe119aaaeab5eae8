"""Compile /repo sources + harness to IR (symbolic) and to a native library."""
import glob
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('IRV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++-14'
BASE = ['-nostdinc++', '-cxx-isystem', '/usr/include/c++/12', '-cxx-isystem', '/usr/include/x86_64-linux-gnu/c++/12',
        '-std=c++20', '-fPIC', '-w', '-I', REPO, '-I/usr/include/eigen3', '-I', VERIF + '/harness', '-I', VERIF + '/harness/stub']


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:400], (r.stderr or r.stdout)[-3000:]))
    return r.stdout


INC = re.compile(r'^\s*#\s*include\s*"([^"]+)"', re.M)


def repo_sources(harness, extra=(), exclude=()):
    """Every .cc of the repository that the harness depends on: the include graph is followed from the harness, and
    a header's same-named .cc is part of the program.  -> (sources, needs generated protobuf code)"""
    todo = [os.path.join(VERIF, 'harness', h) for h in harness] + [os.path.join(REPO, d) for d in extra]
    seen, out, pb = set(todo), [x for x in todo if x.startswith(REPO)], []
    while todo:
        f = todo.pop()
        with open(f, errors='replace') as fh:
            txt = fh.read()
        for inc in INC.findall(txt):
            if inc.endswith('.pb.h') or inc.endswith('.pb.h>'):
                pb.append(inc[:-5])
                continue
            for base in (REPO, os.path.dirname(f), VERIF + '/harness'):
                p = os.path.normpath(os.path.join(base, inc))
                if os.path.isfile(p):
                    break
            else:
                continue
            new = [p]
            if p.startswith(REPO + '/') and p.endswith(('.hh', '.h', '.hpp')):
                cc = os.path.splitext(p)[0] + '.cc'
                if os.path.isfile(cc) and os.path.relpath(cc, REPO) not in exclude:
                    new.append(cc)
            for q in new:
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
                    if q.endswith('.cc'):
                        out.append(q)
    return sorted(set(out)), sorted(set(pb))


IMP = re.compile(r'^\s*import\s+(?:public\s+|weak\s+)?"([^"]+)"', re.M)


def gen_protos(work, pb):
    """Generate the message classes of the .proto files the sources include, and of all they import."""
    g = os.path.join(work, 'gen')
    os.makedirs(g, exist_ok=True)
    todo, seen = [p + '.proto' for p in pb], []
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        f = os.path.join(REPO, p)
        if not os.path.isfile(f):
            f = os.path.join('/usr/include', p)      # google/protobuf/*.proto
        if not os.path.isfile(f):
            raise BuildError('no ' + p)
        seen.append(p)
        with open(f, errors='replace') as fh:
            todo += IMP.findall(fh.read())
    seen.sort()
    sh(['protoc', '-I.', '-I/usr/include', '--cpp_out=' + g] + seen, cwd=REPO)
    return g, [os.path.join(g, p[:-6] + '.pb.cc') for p in seen]


def siblings(srcs, exclude):
    """the other library sources next to these: not named after a header, but part of the same libraries"""
    out = []
    for d in sorted({os.path.dirname(s) for s in srcs}):
        for f in sorted(glob.glob(d + '/*.cc')):
            if f in srcs or os.path.relpath(f, REPO) in exclude or f.endswith('_test.cc') or '/testing/' in f or '/examples/' in f:
                continue
            with open(f, errors='replace') as fh:
                if re.search(r'\bint\s+main\s*\(', fh.read()):
                    continue
            out.append(os.path.relpath(f, REPO))
    return out


def build(work, harness, native=True, ir=True, libs=(), extra=(), pool=8, sources=(), exclude=(), cflags=()):
    """-> (path of .ll, path of .so) ; compiled from REPO's current tree."""
    try:
        return build1(work, harness, native, ir, libs, extra, pool, sources, exclude, cflags)
    except BuildError as e:
        more = [] if 'undefined reference' not in str(e) else siblings(repo_sources(harness, sources, exclude)[0], exclude)
        if not more:
            raise
        return build1(work, harness, native, ir, libs, extra, pool, list(sources) + more, exclude, cflags)


def build1(work, harness, native, ir, libs, extra, pool, sources, exclude, cflags):
    os.makedirs(work, exist_ok=True)
    inc = list(cflags)
    pbsrc = []
    srcs, pb = repo_sources(harness, sources, exclude)
    if pb:
        g, pbsrc = gen_protos(work, pb)
        inc += ['-I', g]
    hs = [os.path.join(VERIF, 'harness', h) for h in harness]
    jobs = []
    bcs, objs = [], []
    for i, s in enumerate(hs + srcs):
        n = '%02d_%s' % (i, os.path.basename(s))
        if ir:
            bc = os.path.join(work, n + '.bc')
            bcs.append(bc)
            jobs.append([CXX] + BASE + inc + ['-O1', '-Xclang', '-disable-llvm-passes', '-DEIGEN_DONT_VECTORIZE',
                                              '-DIRV_SYMBOLIC', '-fno-discard-value-names', '-emit-llvm', '-c', s, '-o', bc])
        if native:
            ob = os.path.join(work, n + '.o')
            objs.append(ob)
            jobs.append([CXX] + BASE + inc + ['-O1', '-fno-inline', '-g0', '-c', s, '-o', ob] + list(extra))
    if native:
        rt = os.path.join(VERIF, 'harness', 'runtime.cc')
        ob = os.path.join(work, 'runtime.o')
        objs.append(ob)
        jobs.append([CXX] + BASE + inc + ['-O1', '-c', rt, '-o', ob])
        for i, s in enumerate(pbsrc):
            if '/google/protobuf/' in s:
                continue        # in the library
            ob = os.path.join(work, 'pb%02d.o' % i)
            objs.append(ob)
            jobs.append([CXX] + BASE + inc + ['-O0', '-g0', '-c', s, '-o', ob])
    if ir and pbsrc:
        for i, s in enumerate(pbsrc + [os.path.join(VERIF, 'harness', 'pbruntime.cc')]):
            bc = os.path.join(work, 'pb%02d.bc' % i)
            bcs.append(bc)
            jobs.append([CXX] + BASE + inc + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-emit-llvm', '-c', s, '-o', bc])
    with ThreadPoolExecutor(pool) as ex:
        list(ex.map(sh, jobs))
    ll = so = None
    if ir:
        ll = os.path.join(work, 'all.ll')
        sh(['llvm-link-18'] + bcs + ['-o', os.path.join(work, 'all.bc')])
        sh(['opt-18', '-passes=sroa', '-S', os.path.join(work, 'all.bc'), '-o', ll])
    if native:
        so = os.path.join(work, 'native.so')
        sh([CXX, '-shared', '-Wl,-z,defs', '-o', so] + objs + ['-lglog', '-lfmt', '-lprotobuf', '-luuid', '-pthread'] + list(libs))
    return ll, so
