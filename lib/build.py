"""Builds the IR model of /repo's current working tree for a probe translation unit."""
import hashlib, os, shutil, subprocess, sys, tempfile
from engine import Module, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = '/tmp/verif-ir-cache'
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


def llvm(tool):
    for n in (tool + '-18', tool):
        if shutil.which(n):
            return n
    p = '/usr/lib/llvm-18/bin/' + tool
    if os.path.exists(p):
        return p
    raise AnalysisError('tool missing: ' + tool)


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd)[:300], p.stderr[-3000:]))
    return p.stdout


def irdump():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, 'build'), CACHE):
        p = os.path.join(d, 'irdump-' + h)
        if os.path.exists(p):
            return p
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'irdump-' + h)
    lc = llvm('llvm-config')
    flags = [x for x in sh([lc, '--cxxflags']).split() if not x.startswith('-std=') and x not in ('-fno-exceptions',)]
    libs = sh([lc, '--ldflags', '--libs', '--link-shared']).split()
    tmp = p + '.%d' % os.getpid()
    sh([CLANG, '-O1', '-std=c++17'] + flags + [src, '-o', tmp] + libs)
    os.replace(tmp, p)
    return p


def src_files():
    out = []
    for top in ('include', 'src'):
        for r, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(r, f))
    return out


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for p in src_files():
            h.update(p.encode())
            with open(p, 'rb') as f:
                h.update(f.read())
        _tree = h.hexdigest()
    return _tree


CONF = {'YACLIB_CORO_NEED': '1', 'YACLIB_SYMMETRIC_TRANSFER': '1', 'YACLIB_FINAL_SUSPEND_TRANSFER': '1', 'YACLIB_FUTEX': '0'}


def gen_config(d, fault):
    t = open(os.path.join(REPO, 'src', 'config.hpp.in')).read()
    import re
    sub = dict(CONF, YACLIB_FAULT=str(fault))
    t = re.sub(r'\$\{(\w+)\}', lambda m: sub.get(m.group(1), '0'), t)
    os.makedirs(os.path.join(d, 'yaclib'), exist_ok=True)
    with open(os.path.join(d, 'yaclib', 'config.hpp'), 'w') as f:
        f.write(t)


def lib_sources(fault):
    """library translation units for a configuration, discovered from the tree"""
    out = []
    base = os.path.join(REPO, 'src')
    for r, ds, fs in os.walk(base):
        for f in sorted(fs):
            if not f.endswith('.cpp'):
                continue
            rel = os.path.relpath(os.path.join(r, f), base)
            if rel.startswith('fault/fiber/') and fault != 2:
                continue
            if rel in ('fault/atomic.cpp', 'fault/condition_variable.cpp', 'fault/random_device.cpp') and fault == 0:
                continue
            out.append(rel)
    return sorted(out)


PASSES = 'function(sroa,early-cse<memssa>,instsimplify,simplifycfg),globaldce'


def module(probe, fault=0, srcs=None, passes='sroa,instsimplify', defines=(), jobs=8):
    """IR model of probe + library sources (all of them unless srcs is given)"""
    ppath = os.path.join(VERIF, 'probes', probe)
    key = hashlib.sha256()
    for x in (tree_hash(), open(ppath).read(), str(fault), str(srcs), passes, str(defines), CLANG, open(os.path.join(VERIF, 'tool', 'irdump.cpp')).read(), open(__file__).read()):
        key.update(x.encode())
    for f in sorted(os.listdir(os.path.join(VERIF, 'probes'))):
        if f.endswith('.hpp'):
            key.update(open(os.path.join(VERIF, 'probes', f)).read().encode())
    cached = os.path.join(CACHE, key.hexdigest()[:32] + '.json')
    if not os.path.exists(cached):
        tool = irdump()
        d = tempfile.mkdtemp(prefix='verif-ir-')
        try:
            gen_config(d, fault)
            flags = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-fvisibility=hidden', '-flto', '-fwhole-program-vtables',
                     '-fno-discard-value-names', '-fno-access-control', '-fno-threadsafe-statics', '-w', '-DNDEBUG', '-pthread', '-I' + d, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')] + ['-D' + x for x in defines]
            units = [ppath] + [os.path.join(REPO, 'src', s) for s in (srcs if srcs is not None else lib_sources(fault))]
            outs = []
            procs = []
            for i, u in enumerate(units):
                o = os.path.join(d, '%d.bc' % i)
                outs.append(o)
                procs.append((u, [CLANG] + flags + ['-c', '-emit-llvm', u, '-o', o]))
            running = []
            for u, c in procs:
                while len(running) >= jobs:
                    u0, p0 = running.pop(0)
                    _, e = p0.communicate()
                    if p0.returncode:
                        raise AnalysisError('cannot compile %s\n%s' % (u0, '\n'.join([l for l in e.split('\n') if 'error' in l][:12])))
                running.append((u, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
            for u0, p0 in running:
                _, e = p0.communicate()
                if p0.returncode:
                    raise AnalysisError('cannot compile %s\n%s' % (u0, '\n'.join([l for l in e.split('\n') if 'error' in l][:12])))
            linked = os.path.join(d, 'l.bc')
            sh([llvm('llvm-link')] + outs + ['-o', linked])
            opt = os.path.join(d, 'o.bc')
            sh([llvm('opt'), '-passes=' + passes, linked, '-o', opt])
            os.makedirs(CACHE, exist_ok=True)
            js = os.path.join(d, 'o.json')
            with open(js, 'w') as f:
                p = subprocess.run([tool, opt], stdout=f, stderr=subprocess.PIPE, text=True)
                if p.returncode:
                    raise AnalysisError('irdump failed: ' + p.stderr[-1000:])
            tmp = cached + '.%d' % os.getpid()
            shutil.move(js, tmp)
            os.replace(tmp, cached)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        # keep the cache small
        fs = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.endswith('.json')), key=os.path.getmtime)
        for x in fs[:-60]:
            try:
                os.unlink(x)
            except OSError:
                pass
    return Module(cached)
