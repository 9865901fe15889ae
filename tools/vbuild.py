#!/usr/bin/env python3
"""Builds p4est from /repo/src together with libsc, the MPI simulator and one
harness per check.  Everything is cached by content under /verif/build."""
import hashlib, os, threading, subprocess, sys, glob, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
MPIINC = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
FLAVOR = {
    'rel': ['-O2', '-g1'],
    'dbg': ['-O1', '-g1', '-DP4EST_ENABLE_DEBUG=1'],
    'asan': ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'],
}
REDEF = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'abort', 'exit', 'sleep',
         'fopen', 'fwrite', 'fread', 'fclose', 'fflush']


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write('BUILD FAILED: ' + ' '.join(cmd) + '\n' + r.stdout[-4000:] + '\n')
        raise SystemExit(3)
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:32]


_files = {}


def content(p):
    if p not in _files:
        with open(p, 'rb') as f:
            _files[p] = f.read()
    return _files[p]


_hdr = None


def headers():
    """one digest over everything a source file may include"""
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(SRC + '/*.h')) + sorted(glob.glob(VERIF + '/compat/*.h'))
        _hdr = digest(*[x for f in fs for x in (os.path.basename(f), content(f))])
    return _hdr


def closure(path, seen=None):
    """source text of a .c file and of all .c files it includes"""
    seen = seen if seen is not None else {}
    if path in seen:
        return seen
    seen[path] = content(path)
    for m in re.finditer(rb'#\s*include\s+"([^"]+\.c)"', seen[path]):
        q = os.path.join(os.path.dirname(path), m.group(1).decode())
        if os.path.exists(q):
            closure(q, seen)
    return seen


_locks = {}
_guard = threading.Lock()


def cached(key, suffix, make):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + suffix)
    with _guard:
        lock = _locks.setdefault(out, threading.Lock())
    with lock:
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            make(tmp)
            os.rename(tmp, out)
        else:
            os.utime(out)
    return out


def p4est_object(flavor, cflags=()):
    fl = FLAVOR[flavor] + list(cflags) + ['-std=gnu11', '-w', '-fno-pie', '-DP4EST_CONFIG_VP=1', '-I' + VERIF + '/compat', '-I' + SRC] + MPIINC
    srcs = sorted(glob.glob(SRC + '/*.c'))
    objs = []

    def one(s):
        key = digest(' '.join(fl), headers(), *[x for kv in sorted(closure(s).items()) for x in (os.path.basename(kv[0]), kv[1])])
        return cached(key, '.o', lambda o: sh(['gcc'] + fl + ['-c', s, '-o', o]))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    key = digest('combine', *objs, *REDEF)

    def combine(o):
        r = o + '.r.o'
        sh(['ld', '-r', '-o', r] + objs + ['/usr/lib/x86_64-linux-gnu/libsc.a'])
        secs = []
        for line in sh(['readelf', '-S', '-W', r]).splitlines():
            m = re.search(r'\]\s+(\.\S+)\s+(PROGBITS|NOBITS)', line)
            if m:
                secs.append(m.group(1))
        args = []
        for s in secs:
            if s == '.data' or s.startswith('.data.rel') and not s.startswith('.data.rel.ro') or re.match(r'\.data\.(?!rel)', s):
                args += ['--rename-section', s + '=vp_data']
            elif s == '.bss' or s.startswith('.bss.'):
                args += ['--rename-section', s + '=vp_bss']
        for f in REDEF:
            args += ['--redefine-sym', f + '=vp_' + f]
        sh(['objcopy'] + args + [r, o])
        os.remove(r)
    return cached(key, '.comb.o', combine)


CXX = ['-std=c++17', '-DOMPI_SKIP_MPICXX=1', '-w', '-fno-pie', '-fno-gnu-unique', '-I' + VERIF + '/compat', '-I' + SRC, '-I' + VERIF] + MPIINC


def verif_headers():
    fs = sorted(glob.glob(VERIF + '/mpisim/*.hh') + glob.glob(VERIF + '/ref/*.hh') + glob.glob(VERIF + '/checks/*.hh'))
    return digest(*[x for f in fs for x in (os.path.basename(f), content(f))])


def cxx_object(src, flavor, defs):
    opt = ['-O1', '-g1'] if flavor != 'asan' else ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']
    if flavor == 'dbg':
        defs = list(defs) + ['-DP4EST_ENABLE_DEBUG=1']
    fl = CXX + opt + list(defs)
    key = digest(' '.join(fl), headers(), verif_headers(), content(src))
    return cached(key, '.o', lambda o: sh(['g++'] + fl + ['-c', src, '-o', o]))


def harness(name, dim, flavor='rel', defs=(), cflags=()):
    """returns the path of an executable for checks/<name>.cc"""
    d = list(defs) + (['-DVP_DIM=3'] if dim == 3 else ['-DVP_DIM=2'])
    src = os.path.join(VERIF, 'checks', name + '.cc')
    with ThreadPoolExecutor(4) as ex:
        a = ex.submit(cxx_object, src, flavor, d)
        b = ex.submit(cxx_object, VERIF + '/mpisim/mpisim.cc', flavor, [])
        e = ex.submit(cxx_object, VERIF + '/ref/engine.cc', flavor, [])
        c = ex.submit(p4est_object, flavor, cflags)
        objs = [a.result(), b.result(), e.result(), c.result()]
    key = digest('link', flavor, *objs)
    fl = ['-fsanitize=address'] if flavor == 'asan' else []
    return cached(key, '.%s%dd' % (name, dim), lambda o: sh(['g++', '-no-pie'] + fl + ['-o', o] + objs + ['-lz', '-lm', '-ldl']))


def trim(limit=1500 << 20):
    """keep the cache below a size limit"""
    fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in glob.glob(CACHE + '/*')]
    tot = sum(x[1] for x in fs)
    for t, s, f in sorted(fs):
        if tot <= limit:
            break
        os.remove(f)
        tot -= s


if __name__ == '__main__':
    print(p4est_object(sys.argv[1] if len(sys.argv) > 1 else 'rel'))
