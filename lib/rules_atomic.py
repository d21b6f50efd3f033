"""C19: yaclib_std::atomic against std::atomic, one obligation per operation x type x qualification x backend."""
import json, os, re, shutil, subprocess, tempfile
import build, eqv
from engine import AnalysisError
from common import *

FLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-ftrivial-auto-var-init=pattern',
         '-fsanitize=signed-integer-overflow', '-fsanitize-trap=all', '-D_GLIBCXX_ASSERTIONS', '-DNDEBUG', '-w', '-pthread', '-g1']
WHAT = {'n': '', 'v': ' volatile'}


def cc(d, fault, src, out, syntax=False):
    c = [build.CLANG] + FLAGS + ['-I' + d, '-I' + os.path.join(build.REPO, 'include'), '-I' + os.path.join(build.REPO, 'src'), src]
    p = subprocess.run(c + (['-fsyntax-only', '-ferror-limit=0'] if syntax else ['-S', '-emit-llvm', '-o', out]), capture_output=True, text=True)
    if p.returncode and not syntax:
        raise AnalysisError('cannot compile %s\n%s' % (src, '\n'.join([l for l in p.stderr.split('\n') if 'error' in l][:12])))
    return p


def devolatile(t):
    """one thread: a volatile access is an access"""
    t = re.sub(r'\b((?:load|store|cmpxchg|atomicrmw)(?: atomic)?(?: weak)?) volatile ', r'\1 ', t)
    return t


def obligations(fault, futex):
    """optimized IR of the obligation functions, as read by irdump; the raw IR's callees of each (for reports)"""
    d = tempfile.mkdtemp(prefix='verif-eqv-')
    try:
        build.gen_config(d, fault)
        if futex:
            p = os.path.join(d, 'yaclib', 'config.hpp')
            t = open(p).read()
            t2 = re.sub(r'(#\s*define\s+YACLIB_FUTEX)\s+0', r'\1 %d' % futex, t)
            if t2 == t:
                raise AnalysisError('YACLIB_FUTEX is not in the generated configuration')
            open(p, 'w').write(t2)
        srcs = [os.path.join(build.VERIF, 'probes', 'atomic.cpp')]
        extra = ['-DFLAG_ONLY'] if futex else []
        base = os.path.join(build.REPO, 'src', 'fault')
        srcs += sorted(os.path.join(base, f) for f in os.listdir(base) if f.endswith('.cpp'))
        if fault == 2:
            base = os.path.join(base, 'fiber')
            srcs += sorted(os.path.join(base, f) for f in os.listdir(base) if f.endswith('.cpp'))
        lls = []
        jobs = []
        for i, s in enumerate(srcs):
            o = os.path.join(d, '%d.ll' % i)
            c = [build.CLANG] + FLAGS + ['-I' + d, '-I' + os.path.join(build.REPO, 'include'), '-I' + os.path.join(build.REPO, 'src'), s, '-S', '-emit-llvm', '-o', o] + extra
            jobs.append((s, o, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for s, o, p in jobs:
            _, e = p.communicate()
            if p.returncode:
                raise AnalysisError('cannot compile %s\n%s' % (s, '\n'.join([l for l in e.split('\n') if 'error' in l][:12])))
            t = devolatile(open(o).read())
            if s != srcs[0] and ('mersenne' in t or re.search(r'^define [^\n]*@_ZN6yaclib11InjectFaultEv\(', t, re.M)):
                continue    # the random engine and the injection point stay opaque
            open(o, 'w').write(t)
            lls.append(o)
        raw = open(lls[0]).read()
        linked = os.path.join(d, 'l.bc')
        lib = os.path.join(d, 'lib.bc')
        build.sh([build.llvm('llvm-link')] + lls[1:] + ['-o', lib])
        build.sh([build.llvm('llvm-link'), '--only-needed', lls[0], lib, '-o', linked])
        opt = os.path.join(d, 'o.bc')
        build.sh([build.llvm('opt'), '-passes=function(loweratomic),default<O2>', '-inline-threshold=100000', linked, '-o', opt])
        p = subprocess.run([build.irdump(), opt], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisError('irdump failed: ' + p.stderr[-1000:])
        return json.loads(p.stdout)['functions'], index(raw)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def index(raw):
    out = {}
    name, body = None, []
    for l in raw.split('\n'):
        if name is None:
            if l.startswith('define '):
                m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
                name, body = m.group(1).strip('"'), []
        elif l == '}':
            out[name] = re.findall(r'(?:call|invoke) [^@\n]*@("[^"]+"|[\w.$]+)\(', '\n'.join(body))
            name = None
        else:
            body.append(l)
    return out


def construct(ix, name):
    """the library functions the obligation's code reaches"""
    seen, todo, found = set(), [name], []
    while todo and len(seen) < 60:
        for c in ix.get(todo.pop(0), ()):
            c = c.strip('"')
            if c in seen:
                continue
            seen.add(c)
            if c not in ix:
                continue
            if '6yaclib6detail' in c and not re.match(r'_ZZ|_ZL|.*C[12]', c):
                found.append(c)
            todo.append(c)
    if not found:
        return name
    dm = subprocess.run(['c++filt'] + found, capture_output=True, text=True).stdout.split('\n') if shutil.which('c++filt') else found
    l = [re.sub(r'\(.*', '', x.split(' ', 1)[-1] if ' yaclib' in x.split('(')[0] else x) for x in dm if x and 'load(' not in x and 'InjectFault' not in x and 'ShouldFail' not in x]
    return ', '.join(dict.fromkeys(l[:3])) or name


CATS = (
    (r'cas_weak\w*_nofault$', 'weak.nofault', 'compare_exchange_weak without an injected failure succeeds exactly when std::atomic\'s strong form does'),
    (r'cas_weak', 'weak', 'compare_exchange_weak: success stores desired over an equal value, failure (also injected) reports the current value and changes nothing'),
    (r'cas_strong', 'strong', 'compare_exchange_strong computes what std::atomic computes, on every choice of the injector'),
    (r'ctor|default|init', 'init', 'construction leaves the value std::atomic would hold'),
    (r'', 'op', 'the operation returns and stores what std::atomic returns and stores, without undefined behaviour'),
)


def run(chk, fault, futex):
    fns, raw = obligations(fault, futex)
    names = sorted(n for n in fns if n.startswith('m__') and fns[n].get('b'))
    want = set(n for n in raw if n.startswith('m__'))
    if len(names) < (10 if futex else 1500) or set(names) != want:
        raise AnalysisError('obligations lost: %d of %d' % (len(names), len(want)))
    be = {1: 'THREAD', 2: 'FIBER'}[fault]
    for n in names:
        _, ty, op, q = n.split('__')
        cat, text = next((c, t) for r, c, t in CATS if re.search(r, op))
        r = chk.rule('C19.%s.%s' % ('flag' if ty == 'flag' else 'fence' if ty == 'fence' else cat, be), text)
        bad, paths, calls = eqv.decide(fns, n)
        chk.npaths += paths
        chk.entries[be + ':' + n] = paths
        if bad:
            kinds = sorted(set(b[0] for b in bad))
            why = 'differs from std::atomic' if 'verif_bad' in kinds else 'undefined behaviour (%s)' % kinds[0]
            chk.ob(r, False, '%s<%s>::%s%s [%s] in %s' % ({'flag': 'atomic_flag'}.get(ty, 'atomic'), ty, op, WHAT[q], be, construct(raw, n)), why)
        else:
            chk.ob(r, True, n)


def c19(chk, tier):
    tasks = [(1, 0), (2, 0), (2, 2), (1, 2)]
    chk.parallel([t for t in tasks], lambda t: guard(chk, *t))
    aliases(chk)


def guard(chk, fault, futex):
    try:
        run(chk, fault, futex)
    except eqv.Undecided as e:
        raise AnalysisError('an obligation is outside the decided fragment: %s' % e)


def aliases(chk):
    """the named aliases denote the standard ones' value types (decided by the type checker)"""
    r = chk.rule('C19.alias', 'yaclib_std::atomic_X is atomic of the value type of std::atomic_X')
    import engine
    src = open(os.path.join(build.REPO, 'include', 'yaclib_std', 'detail', 'atomic.hpp')).read()
    names = re.findall(r'using\s+(atomic_\w+)\s*=', src)
    for fault in (1, 2):
        d = tempfile.mkdtemp(prefix='verif-eqv-')
        try:
            build.gen_config(d, fault)
            f = os.path.join(d, 'a.cpp')
            with open(f, 'w') as o:
                o.write('#include <yaclib_std/atomic>\n#include <atomic>\n#include <type_traits>\n')
                for n in names:
                    o.write('static_assert(std::is_same_v<yaclib_std::%s, yaclib_std::atomic<std::%s::value_type>>, "alias %s");\n' % (n, n, n))
            p = cc(d, fault, f, None, syntax=True)
            bad = re.findall(r'static assertion failed[^\n]*alias (\w+)', p.stderr)
            if p.returncode and not bad:
                raise AnalysisError('cannot compile the alias witnesses: ' + p.stderr[:500])
            for n in names:
                chk.ob(r, n not in bad, 'include/yaclib_std/detail/atomic.hpp: ' + n, 'denotes another value type')
        finally:
            shutil.rmtree(d, ignore_errors=True)
