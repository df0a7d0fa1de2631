"""Compile /repo's working tree and the harnesses to IR (JSON) and natively."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
H = os.path.join(VERIF, 'harness')

CXX = 'clang++-18'
COMMON = ['-std=c++14', '-DNDEBUG', '-I' + REPO + '/include', '-isystem', '/usr/include/eigen3', '-I' + H, '-fno-access-control']
SYM = ['-O1', '-Xclang', '-disable-llvm-passes', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_DONT_VECTORIZE', '-DVF_SYMBOLIC',
       '-ffp-contract=off', '-fno-math-errno', '-gline-tables-only', '-fno-builtin', '-c', '-emit-llvm', '-w']
NAT0 = ['-O1', '-g1', '-ffp-contract=off', '-w', '-pthread']


def _files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        if '/python' in d[len(root):]:
            continue
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def lib_sources():
    return _files(REPO + '/src/library', ('.cpp',))


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in _files(REPO + '/include', ('.hpp', '.h')) + _files(REPO + '/src/library', ('.cpp', '.hpp')) + list(extra):
        h.update(f.encode())
        with open(f, 'rb') as g:
            h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:20]


def file_hash(*fs):
    h = hashlib.sha256()
    for f in fs:
        with open(f, 'rb') as g:
            h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()[:16]


def run(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    if p.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def irdump():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    exe = os.path.join(BUILD, 'irdump-' + file_hash(src))
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = run(['llvm-config-18', '--cxxflags']).split()
    flags = [f for f in flags if f.startswith(('-I', '-D'))]
    libs = run(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'linker', 'passes']).split()
    run(['g++', '-O1', '-std=c++17', src, '-o', exe + '.tmp'] + flags + ['-fno-rtti'] + libs)
    os.rename(exe + '.tmp', exe)
    return exe


def prune(keep):
    """bound the disk used by caches of other trees"""
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('t-')]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[6:]:
        if d != keep:
            subprocess.run(['rm', '-rf', d])


def build(harnesses, noinline=(), need_ir=True, need_native=True, jobs=8, asan=False):
    """harnesses: list of harness .cpp basenames.  Returns (json path, native exe)."""
    os.makedirs(BUILD, exist_ok=True)
    hs = [os.path.join(H, h + '.cpp') for h in harnesses]
    hdrs = [os.path.join(H, f) for f in sorted(os.listdir(H)) if f.endswith('.hpp')]
    d = os.path.join(BUILD, 't-' + tree_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    prune(d)
    dump = irdump()
    models = os.path.join(H, 'models.cpp')
    native = os.path.join(H, 'vf_native.cpp')
    key = hashlib.sha256((file_hash(*(hs + hdrs + [models, native])) + file_hash(dump) + repr(noinline) + repr((SYM, NAT0, asan))).encode()).hexdigest()[:16]
    tag = '+'.join(harnesses)
    js = os.path.join(d, '%s-%s.json' % (tag, key))
    exe = os.path.join(d, '%s-%s.exe' % (tag, key))
    lib = lib_sources()
    NAT = NAT0 + (['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else [])
    ck = hashlib.sha256(repr((SYM, NAT)).encode()).hexdigest()[:8]
    work = []

    def comp(out, src, flags):
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            run([CXX] + COMMON + flags + [src, '-o', tmp])
            os.rename(tmp, out)
        return out
    with ThreadPoolExecutor(jobs) as ex:
        bcs, objs = [], []
        if need_ir and not os.path.exists(js):
            for s in lib:
                o = os.path.join(d, s[len(REPO):].replace('/', '_') + ck + '.bc')
                bcs.append(ex.submit(comp, o, s, SYM))
            for s in hs + [models]:
                o = os.path.join(d, '%s-%s.bc' % (os.path.basename(s), file_hash(s, *hdrs) + ck))
                bcs.append(ex.submit(comp, o, s, SYM))
        if need_native and not os.path.exists(exe):
            for s in lib:
                o = os.path.join(d, s[len(REPO):].replace('/', '_') + ck + '.o')
                objs.append(ex.submit(comp, o, s, NAT + ['-c']))
            for s in hs + [native]:
                o = os.path.join(d, '%s-%s.o' % (os.path.basename(s), file_hash(s, *hdrs) + ck))
                objs.append(ex.submit(comp, o, s, NAT + ['-c']))
        bcs = [b.result() for b in bcs]
        objs = [b.result() for b in objs]
    if bcs:
        ni = os.path.join(d, 'noinline-%s.txt' % key)
        with open(ni, 'w') as f:
            f.write('\n'.join(noinline) + '\n')
        tmp = js + '.%d.tmp' % os.getpid()
        run([dump, tmp, ni, 'vh_'] + bcs)
        os.rename(tmp, js)
    if objs:
        tmp = exe + '.%d.tmp' % os.getpid()
        run([CXX, '-pthread'] + (['-fsanitize=address'] if asan else []) + objs + ['-o', tmp])
        os.rename(tmp, exe)
    return js, exe
