"""C17: a run under the fiber backend is a function of program, seed and fault configuration.

Sources of nondeterminism are enumerated on the IR of every function of the fiber build; state carried from one run to the
next is found by a taint analysis of the mutable globals; the random engine, its draw counter and the injector state are
tracked symbolically through the operations that use and restore them; every scheduling operation must have one outcome on
every placement of fibers once the draws are fixed."""
import rules_fiber as rf
from rules_fiber import *

# ---------------------------------------------------------------- sources

DENY = [
    (r'(clock_gettime|clock|time|gettimeofday|ftime|timespec_get|times|localtime(_r)?|gmtime(_r)?|clock_getres|getrusage)$', 'reads the real time'),
    (r'std::chrono::(_V2::)?(system|steady|high_resolution|utc|tai|gps|file)_clock::now$', 'reads the real time'),
    (r'std::random_device::', 'reads the entropy of the system'),
    (r'(rand|srand|rand_r|random|srandom|random_r|[dejlmn]rand48(_r)?|arc4random(_uniform|_buf)?|getrandom|getentropy)$', 'uses a generator which is not seeded by the run'),
    (r'(getpid|getppid|gettid|getenv|secure_getenv|gethostid|getcpu|sched_getcpu|sched_yield|sched_getaffinity|pthread_self|pthread_getaffinity_np)$', 'depends on the process'),
    (r'(syscall|nanosleep|clock_nanosleep|usleep|sleep|alarm|setitimer|timer_create|timer_settime|poll|select|epoll_wait|sigwait|raise)$', 'depends on the operating system'),
    (r'(pthread_create|thrd_create|pthread_cond_\w+|pthread_join|sem_\w+|fork|vfork|clone)$', 'uses real threads'),
    (r'std::thread::(_M_start_thread|join|detach)$', 'uses real threads'),
    (r'std::(this_thread::\w+|condition_variable::(wait|notify_one|notify_all))$', 'uses real threads'),
    (r'(open|openat|fopen|read|pread|fread|fgets|recv|recvfrom|readlink)$', 'reads outside data'),
    (r'llvm\.(readcyclecounter|readsteadycounter|x86\.rdtsc\w*|x86\.rdrand\.\d+|x86\.rdseed\.\d+|x86\.rdpid)$', 'reads a hardware counter'),
    (r'(mallinfo2?|malloc_usable_size|backtrace)$', 'depends on the allocator'),
    (r'std::(less|greater|less_equal|greater_equal|hash)<.*\*>::operator\(\)$', 'depends on addresses'),
]
DENY = [(re.compile('^(?:%s)' % a), b) for a, b in DENY]


def calls(f):
    """(callee name, instruction) of the direct calls of f"""
    for blk in f.blocks:
        for ins in blk:
            if ins['op'] in ('call', 'invoke'):
                t = ins.get('f')
                yield (t[1] if type(t) is list and t[0] == 'g' else None), ins


def denied(m, name):
    f = m.fns.get(name)
    names = [name] if f is None else [f.sn, f.name]
    if f is not None and re.search(r'std::(less|greater|less_equal|greater_equal|hash)<', f.dn):
        names.append(re.sub(r'^.*?\b(std::(?:less|greater|less_equal|greater_equal|hash)<.*>::operator\(\)).*$', r'\1', f.dn))
    for n in names:
        n = re.sub(r'^std::__cxx11::|^std::__1::', 'std::', n)
        for r, why in DENY:
            if r.search(n):
                return why
    return None


def sources(chk, C):
    r = chk.rule('C17.source', 'no function of the library built for the fiber backend reads real time, entropy, process state or threads')
    a = chk.rule('C17.addr', 'the fault layer does not order or hash addresses')
    m = C.m
    for f in m.fns.values():
        if not f.blocks:
            continue
        for n, ins in calls(f):
            if n is None:
                if type(ins.get('f')) is list and ins['f'][0] == 'asm':
                    chk.ob(r, f.sn.startswith(FIB + 'ExecutionContext') or not str(ins['f'][1:]).strip("[]'\" "), where_ins(f, ins), 'inline assembly in %s' % f.sn)
                continue
            why = denied(m, m.aliases.get(n, n))
            chk.ob(r, why is None, where_ins(f, ins), '%s calls %s, which %s' % (f.sn, (m.fns[n].sn if n in m.fns else n), why) if why else '')
        if not f.sn.startswith('yaclib::') or f.sn.startswith(FIB + 'DefaultAllocator'):
            continue
        i2p = {}
        for blk in f.blocks:
            for ins in blk:
                if ins['op'] == 'ptrtoint':
                    i2p[ins['i']] = ins
                if ins['op'] == 'icmp' and ins.get('vt') == 'p':
                    chk.ob(a, ins['p'] in ('eq', 'ne'), where_ins(f, ins), '%s orders addresses' % f.sn)
        if not i2p or not in_fault(f):
            continue
        for blk in f.blocks:
            for ins in blk:
                used = [o for o in operands(ins) if o[0] == 'v' and o[1] in i2p]
                if used and ins['op'] not in ('ptrtoint', 'inttoptr'):
                    ok = ins['op'] == 'sub' and len(used) == 2 or ins['op'] == 'icmp' and ins['p'] in ('eq', 'ne') or ins['op'] in ('call', 'invoke', 'store')
                    chk.ob(a, ok, where_ins(f, ins), '%s computes with the bits of an address' % f.sn)


def in_fault(f):
    return '/fault/' in (f.file or '') or re.match(r'yaclib::(fault|detail::fiber|fiber)::', f.sn) is not None


def where_ins(f, ins):
    return '%s (%s:%s)' % (f.sn, os.path.basename(f.file or ''), ins.get('l', f.line))


def operands(ins):
    o = list(ins.get('a', ()))
    if ins['op'] == 'phi':
        o += [x for _, x in ins['in']]
    if ins['op'] == 'getelementptr':
        for x in ins.get('x') or ():
            o.append(x[0])
    return [x for x in o if type(x) is list and x and x[0] in ('v', 'g')]


# ---------------------------------------------------------------- state carried between runs

class Carry:
    """taint analysis of the mutable globals: where they are stored, and where the values they hold decide something"""
    ANY = -1

    def __init__(self, m):
        self.m = m
        self.fns = {n: f for n, f in m.fns.items() if f.blocks}
        self.mut = {n for n, g in m.globals.items() if not g.get('c') and not n.startswith(('_ZTV', '_ZTI', '_ZTS', 'llvm.', '__dso')) and not n.startswith('_ZTVN10__cxxabiv1')}
        self.guards = {n for n in self.mut if n.startswith('_ZGV') or n == '__tls_guard'}
        self.mut -= self.guards
        self.wrap = {n: '_Z' + n[4:] for n in m.fns if n.startswith('_ZTW')}
        self.P = {}      # (fn, value) -> regions pointed to
        self.T = {}      # (fn, value) -> regions whose contents the value depends on
        self.RP, self.RT = {}, {}
        self.callers = {}
        for n, f in self.fns.items():
            for c, ins in calls(f):
                if c:
                    self.callers.setdefault(m.aliases.get(c, c), set()).add(n)
        todo = list(self.fns)
        on = set(todo)
        while todo:
            n = todo.pop()
            on.discard(n)
            for x in self.visit(n):
                if x in self.fns and x not in on:
                    on.add(x)
                    todo.append(x)

    def big(self, g):
        return (self.m.globals[g].get('s') or 0) > 8

    def val(self, n, o):
        if type(o) is not list or not o:
            return (frozenset(), frozenset())
        if o[0] == 'g':
            g = self.m.aliases.get(o[1], o[1])
            return (frozenset([(g, o[2] if len(o) > 2 and type(o[2]) is int else 0)]) if g in self.mut else frozenset(), frozenset())
        if o[0] == 'v':
            return self.P.get((n, o[1]), frozenset()), self.T.get((n, o[1]), frozenset())
        return (frozenset(), frozenset())

    def put(self, d, k, v):
        o = d.get(k, frozenset())
        if v - o:
            d[k] = o | v
            return True
        return False

    def visit(self, n):
        """one pass over function n; yields the functions to look at again"""
        f = self.fns[n]
        again = set()
        ch = True
        while ch:
            ch = False
            for blk in f.blocks:
                for ins in blk:
                    op = ins['op']
                    if op == 'ret' and ins.get('a'):
                        p, t = self.val(n, ins['a'][0])
                        if self.put(self.RP, n, p) | self.put(self.RT, n, t):
                            again |= self.callers.get(n, set())
                        continue
                    if op in ('call', 'invoke'):
                        t = ins.get('f')
                        c = self.m.aliases.get(t[1], t[1]) if type(t) is list and t[0] == 'g' else None
                        if c in self.wrap and self.wrap[c] in self.m.globals or c in self.wrap:
                            g = [x for x in self.mut if x.endswith(c[4:])]
                            if g and 'i' in ins:
                                ch |= self.put(self.P, (n, ins['i']), frozenset((x, 0) for x in g))
                            continue
                        if c and c.startswith('llvm.threadlocal.address'):
                            ch |= self.put(self.P, (n, ins['i']), self.val(n, ins['a'][0])[0])
                            continue
                        if c in self.fns:
                            cf = self.fns[c]
                            for k, a in enumerate(ins.get('a', ())):
                                p, tt = self.val(n, a)
                                if p and self.put(self.P, (c, k), p) | self.put(self.T, (c, k), frozenset()):
                                    again.add(c)
                                if tt and self.put(self.T, (c, k), tt):
                                    again.add(c)
                            if 'i' in ins:
                                ch |= self.put(self.P, (n, ins['i']), self.RP.get(c, frozenset()))
                                ch |= self.put(self.T, (n, ins['i']), self.RT.get(c, frozenset()))
                        elif 'i' in ins:
                            tt = frozenset()
                            for a in ins.get('a', ()):
                                p, x = self.val(n, a)
                                tt |= x | p
                            ch |= self.put(self.T, (n, ins['i']), tt)
                        continue
                    if 'i' not in ins:
                        continue
                    k = (n, ins['i'])
                    if op in ('load', 'atomicrmw', 'cmpxchg'):
                        p, _ = self.val(n, ins['a'][0])
                        ch |= self.put(self.T, k, p)
                        if op == 'load' and ins.get('t') == 'p':
                            ch |= self.put(self.P, k, frozenset((g, self.ANY) for g, o in p if self.big(g)))
                        continue
                    if op == 'getelementptr':
                        p, t = self.val(n, ins['a'][0])
                        o = ins.get('o') or 0
                        p = frozenset((g, x + o if x >= 0 and not ins.get('x') else self.ANY) for g, x in p)
                        for x in ins.get('x') or ():
                            t |= self.val(n, x[0])[1]
                        ch |= self.put(self.P, k, p)
                        ch |= self.put(self.T, k, t)
                        continue
                    p = t = frozenset()
                    for a in operands(ins):
                        x, y = self.val(n, a)
                        p |= x
                        t |= y
                    if op in ('phi', 'select', 'bitcast', 'freeze', 'addrspacecast'):
                        ch |= self.put(self.P, k, p)
                    ch |= self.put(self.T, k, t)
        return again

    def stores(self):
        """region -> functions and instructions storing into it"""
        out = {}
        for n, f in self.fns.items():
            for blk in f.blocks:
                for ins in blk:
                    if ins['op'] == 'store':
                        p = self.val(n, ins['a'][1])[0]
                    elif ins['op'] in ('atomicrmw', 'cmpxchg'):
                        p = self.val(n, ins['a'][0])[0]
                    elif ins['op'] in ('call', 'invoke') and (type(ins.get('f')) is not list or ins['f'][0] != 'g' or self.m.aliases.get(ins['f'][1], ins['f'][1]) not in self.fns):
                        p = frozenset(x for a in ins.get('a', ()) for x in self.val(n, a)[0])
                    else:
                        continue
                    for x in p:
                        out.setdefault(x, []).append((f, ins))
        return out

    def deciding(self):
        """(region, function, instruction) where a branch or a draw depends on the contents of a mutable global"""
        for n, f in self.fns.items():
            for blk in f.blocks:
                for ins in blk:
                    op = ins['op']
                    if op == 'br' and len(ins['b']) > 1 or op in ('switch', 'select'):
                        t = self.val(n, ins['a'][0])[1]
                    elif op in ('call', 'invoke') and type(ins.get('f')) is list and ins['f'][0] == 'g' and ins['f'][1] in self.m.fns and self.m.fns[ins['f'][1]].sn == 'yaclib::detail::GetRandNumber':
                        t = self.val(n, ins['a'][0])[1]
                    elif op in ('urem', 'srem'):
                        t = self.val(n, ins['a'][0])[1] | self.val(n, ins['a'][1])[1]
                    else:
                        continue
                    for x in t:
                        yield x, f, ins

    def reach(self, names, without=()):
        out = set()
        todo = [n for n in names if n in self.fns]
        while todo:
            n = todo.pop()
            if n in out or n in without:
                continue
            out.add(n)
            for c, ins in calls(self.fns[n]):
                c = self.m.aliases.get(c, c)
                if c in self.fns:
                    todo.append(c)
        return out


CONFIG = r'(cfg_\w+|sch_set)$'
ALLOC = re.compile(r'yaclib::detail::fiber::(DefaultAllocator|Stack|FiberBase::GetAllocator)\b')
TLPROXY = re.compile(r'yaclib::detail::fiber::(ThreadLocalPtrProxy|GetMap|GetByIndex|SetDefault|GetImpl|Set\b|Get\b)')


def carried(chk, C, restored, quiescent):
    """restored: regions set by re-seeding / restoring; quiescent: globals that are back to a constant when the loop ends"""
    m = C.m
    r = chk.rule('C17.carry', 'no branch and no draw depends on a mutable global which re-seeding, restoring the injector, or the configuration does not set')
    ra = chk.rule('C17.stack', 'the stack cache, which depends on earlier runs, reaches no draw, switch or queue')
    A = Carry(m)
    st = A.stores()
    init = {n for n, f in A.fns.items() if n.startswith(('_GLOBAL__', '__cxx_global', '__tls_init', '_ZTW', '_ZTH')) or f.sn.startswith('__cxx_global')}
    cfg = {n for n in A.fns if re.match(CONFIG, n)}
    roots = {n for n in A.fns if not n.startswith('_') and n not in cfg} | taken(m)
    live = A.reach(roots - init)
    onlycfg = set(A.fns) - live
    proxy = {n for n, f in A.fns.items() if f.sn.startswith(FIB + 'ThreadLocalPtrProxy')}
    onlytls = live - A.reach(roots - init, proxy)
    alloc = {n for n, f in A.fns.items() if ALLOC.match(f.sn)}
    for n in sorted(alloc & live):
        bad = [c for c in A.reach([n]) if decides(m.fns[c])]
        chk.ob(ra, not bad, m.fns[n].sn, 'the stack allocator calls %s' % (m.fns[bad[0]].sn if bad else ''))
    seen = set()
    for x, f, ins in A.deciding():
        g, off = x
        w = [(a, b) for y, l in st.items() if y[0] == g and (off == A.ANY or y[1] == A.ANY or y[1] == off) for a, b in l]
        who = [a for a, b in w if a.name in live]
        k = (g, off, f.name, ins.get('l'))
        if k in seen:
            continue
        seen.add(k)
        if not who or g in quiescent or any(g == a and (b is None or b == off) for a, b in restored):
            chk.ob(r, True, f.sn)
            continue
        users = {a.name for a, b in w} | {f.name}
        if f.name in alloc or accessors(A, g) <= alloc | onlycfg | std(A):
            bad = [n for n in A.reach(accessors(A, g) & alloc) if decides(m.fns[n])]
            chk.ob(ra, not bad, f.sn, 'the stack allocator calls %s' % (m.fns[bad[0]].sn if bad else ''))
            continue
        if accessors(A, g) - std(A) - onlycfg <= onlytls:
            # values of thread-local pointers: data of the program, keyed by object (C18.tls decides what they hold)
            chk.ob(r, True, f.sn)
            continue
        chk.ob(r, False, where_ins(f, ins), '%s decides by %s%s, which %s changes and neither SetSeed, ForwardToFaultRandomCount nor SetInjectorState restores' % (
            f.sn, m.globals[g].get('n') or g, '+%d' % off if off > 0 else '', who[0].sn))
    chk.ob(r, True, 'globals')
    chk.note_globals = sorted({g for (g, o) in st})


def taken(m):
    """functions whose address is taken: vtables and function pointers"""
    out = set()

    def walk(i):
        if i and i[0] == 'a':
            for o, c, s in i[1]:
                walk(c)
        elif i and i[0] in ('g', 'f') and type(i[1]) is str:
            out.add(m.aliases.get(i[1], i[1]))
    for n, g in m.globals.items():
        if 'i' in g and not n.startswith('llvm.'):
            walk(g['i'])
    for f in m.fns.values():
        for blk in f.blocks or ():
            for ins in blk:
                for o in list(ins.get('a', ())) + [x for _, x in ins.get('in', ())]:
                    if type(o) is list and o and o[0] == 'g':
                        out.add(m.aliases.get(o[1], o[1]))
    return {n for n in out if n in m.fns and m.fns[n].blocks}


def std(A):
    if not hasattr(A, '_std'):
        A._std = {n for n, f in A.fns.items() if not f.sn.startswith('yaclib') and 'yaclib' not in f.sn.split('(')[0].split('<')[0]}
    return A._std


def accessors(A, g):
    """functions that load from or store to the region of g"""
    if not hasattr(A, '_acc'):
        A._acc = {}
        for (n, i), p in A.P.items():
            for x in p:
                A._acc.setdefault(x[0], set()).add(n)
        for n, f in A.fns.items():
            for blk in f.blocks:
                for ins in blk:
                    for o in operands(ins):
                        if o[0] == 'g':
                            q = A.m.aliases.get(o[1], o[1])
                            if q in A.mut:
                                A._acc.setdefault(q, set()).add(n)
    return A._acc.get(g, set())


def decides(f):
    return f.sn in ('yaclib::detail::GetRandNumber', 'yaclib::InjectFault') or f.sn.startswith((SCH, FQ, FIB + 'ExecutionContext::SwitchTo', FIB + 'BiList', 'yaclib::detail::Injector'))


# ---------------------------------------------------------------- engine, counter, injector

MT = 'std::mersenne_twister_engine::'
ENG = 'engine state'


def mt_get(self, st, a):
    a = self.resolve(st, a)
    if not issym(a):
        raise AnalysisError('engine object not understood')
    v = st.mem.get(a[0], {}).get(a[1])
    v = self.resolve(st, v[1]) if v else None
    if issym(v) and self.bases[v[0]].kind == 'mt':
        return a, self.bases[v[0]].info
    return a, (('start', a), 0)


def mt_put(self, st, a, info):
    for o in [o for o in st.mem.get(a[0], {}) if a[1] < o < a[1] + 2504]:
        self.wmem(st, a[0]).pop(o)
    self.store(st, a, 8, (self.cons('mt', info, 64), 0))


def m_mt_seed(self, st, f, ins, fn, args):
    a = self.resolve(st, args[0])
    s = self.resolve(st, args[1]) if len(args) > 1 else 5489
    mt_put(self, st, a, (('seed', s), 0))
    ev_call(self, st, fn, args, ins, None)
    return self.finish_call(st, ins, None)


def m_mt_draw(self, st, f, ins, fn, args):
    a, (s, n) = mt_get(self, st, args[0])
    mt_put(self, st, a, (s, n + 1))
    v = (self.cons('mtout', (s, n), 64), 0)
    ev_call(self, st, fn, args, ins, v, eng=a)
    return self.finish_call(st, ins, v)


def m_mt_discard(self, st, f, ins, fn, args):
    k = self.resolve(st, args[1])
    if type(k) is not int:
        raise AnalysisError('discard of an unknown number of draws')
    a, (s, n) = mt_get(self, st, args[0])
    mt_put(self, st, a, (s, n + k))
    ev_call(self, st, fn, args, ins, None, eng=a)
    return self.finish_call(st, ins, None)


def m_yield(self, st, f, ins, fn, args):
    ev_call(self, st, fn, args, ins, None)
    return self.finish_call(st, ins, None)


RND = {MT + 'operator()': m_mt_draw, MT + 'seed': m_mt_seed, MT + 'mersenne_twister_engine': m_mt_seed, MT + 'discard': m_mt_discard,
       'yaclib::fault::Scheduler::RescheduleCurrent': m_yield}


def deps(eng, st, v, out, seen):
    v = eng.resolve(st, v)
    if not issym(v) or v[0] in seen:
        return
    seen.add(v[0])
    b = eng.bases[v[0]]
    if b.kind in ('load', 'undef', 'aload', 'rmwold', 'casold'):
        if not b.info:
            out.add((b.kind, None, 0))
            return
        if b.kind in ('load', 'undef'):
            a, o = b.info[0], b.info[1]
        else:
            a = eng.resolve(st, b.info[0])
            if not issym(a):
                return
            a, o = a
        bb = eng.bases[a]
        if bb.kind == 'global':
            out.add(('global', bb.info, o))
        else:
            out.add((b.kind if b.kind == 'undef' else 'object', bb.kind, o))
            deps(eng, st, (a, 0), out, seen)
    elif b.kind == 'op' or type(b.info) is tuple and b.kind not in ('mt', 'mtout', 'global', 'arg'):
        for x in b.info or ():
            if type(x) is tuple:
                deps(eng, st, x, out, seen)
    else:
        out.add((b.kind, b.info if type(b.info) in (str, int) else None, 0))


def depset(p, v):
    s = set()
    deps(p.eng, p.st, v, s, set())
    return s


class Rnd:
    """the random engine, its counter, the injector and the spurious failures, symbolically"""

    def __init__(self, chk, C):
        self.chk, self.C = chk, C
        self.branches = []
        m = C.m
        self.engg = self.cnt = None

    def start(self):
        """paths after SetSeed(s) from an arbitrary state of the process"""
        chk, C = self.chk, self.C
        r = chk.rule('C17.seed', 'SetSeed puts the engine of the run into the state given by the seed alone and the draw count to 0')
        e0 = C.engine(models=RND, concrete_atomics=True)
        ps = C.paths('cfg_seed', key='seed', models=RND, concrete_atomics=True)
        self.live = []
        for p in ps:
            if not chk.ob(r, p.end == 'ret', 'SetSeed', 'SetSeed ends with %s' % p.end, p):
                continue
            s = p.args[0]
            engs = self.engines(p)
            ok = [a for a, i in engs if i[0][0] == 'seed' and self.plain(p, i[0][1], s) and i[1] == 0]
            self.seedarg = s
            for a, i in engs:
                chk.ob(r, a in ok, 'SetSeed', 'an engine is seeded by something else than the argument or is not at its first draw' if a not in ok else '', p)
            if not chk.ob(r, len(ok) == 1, 'SetSeed', 'SetSeed leaves %d engines seeded by its argument' % len(ok), p):
                continue
            q = [x for x in C.resume(p, 'rec_count', []) if x.end == 'ret']
            chk.ob(r, len(q) == 1 and q[0].res(q[0].ret) == 0, 'SetSeed', 'the draw count after SetSeed is not 0', q[0] if q else p)
            if len(q) == 1:
                self.eng = ok[0]
                self.live.append(q[0])
        return self.live

    def plain(self, p, v, s):
        v = p.res(v)
        s = p.res(s)
        while issym(v) and v != s and p.eng.bases[v[0]].kind == 'op' and p.eng.bases[v[0]].info[0] in ('zext', 'trunc') and v[1] == 0:
            v = p.res(p.eng.bases[v[0]].info[1])
        return v == s

    def engines(self, p):
        out = []
        for b, m in p.st.mem.items():
            if p.eng.bases[b].kind != 'global':
                continue
            for o, (s, v) in m.items():
                v = p.res(v)
                if issym(v) and p.eng.bases[v[0]].kind == 'mt':
                    out.append(((b, o), p.eng.bases[v[0]].info))
        return out

    def state(self, p):
        """(engine info, count) after p"""
        e = dict(self.engines(p)).get(self.eng)
        q = [x for x in self.C.resume(p, 'rec_count', []) if x.end == 'ret']
        return e, (q[0].res(q[0].ret) if len(q) == 1 else None)

    def run(self, tier):
        chk, C = self.chk, self.C
        rd_ = chk.rule('C17.draw', 'every draw of the run comes from the seeded engine and is counted once')
        rr = chk.rule('C17.result', 'a random number, a spurious failure and an injection depend on the draw, the configuration and the restorable state only')
        rc = chk.rule('C17.forward', 'ForwardToFaultRandomCount makes exactly the missing draws')
        rs = chk.rule('C17.state', 'SetInjectorState(GetInjectorState()) restores all state the injector decides by')
        dev = chk.rule('C17.device', 'random_device is a generator seeded by the seed of the run')
        ps = self.start()
        if not ps:
            return
        conf, restored, self.flow = set(), set(), {}
        # configuration: plain stores of the argument
        for n in sorted(C.m.fns):
            if re.match(r'cfg_(?!seed)', n) and C.m.fns[n].blocks:
                for p in C.paths(n, key='cfg'):
                    for e in p.ev:
                        if e.k in ('st', 'astore', 'ast') and issym(p.res(e.addr)) and p.eng.bases[p.res(e.addr)[0]].kind == 'global':
                            a = p.res(e.addr)
                            conf.add((p.eng.bases[a[0]].info, a[1]))
        # restorable locations
        rest = {}
        for p in C.paths('rep_state', key='st', models=RND, concrete_atomics=True):
            if p.end != 'ret':
                continue
            for b, m in p.st.mem.items():
                if p.eng.bases[b].kind == 'global':
                    for o, (s, v) in m.items():
                        if self.plain(p, v, p.args[0]):
                            rest[(p.eng.bases[b].info, o)] = s
            q = [x for x in C.resume(p, 'rec_state', []) if x.end == 'ret']
            chk.ob(rs, len(q) == 1 and self.plain(q[0], q[0].ret, p.args[0]), 'SetInjectorState', 'GetInjectorState does not return what SetInjectorState was given', q[0] if q else p)
        for p in C.paths('rec_state', key='st', models=RND, concrete_atomics=True):
            d = {x[1:] for x in depset(p, p.ret) if x[0] == 'global' and 'guard' not in str(x[1])}
            chk.ob(rs, p.end == 'ret' and d <= set(rest) | conf, 'GetInjectorState', 'GetInjectorState reads %s, which SetInjectorState does not restore' % sorted(d - set(rest)), p)
        self.rest, self.conf = rest, conf
        chk.ob(rs, len(rest) >= 1, 'SetInjectorState', 'SetInjectorState stores its argument nowhere')
        self.cntloc = self.count_location(ps[0])
        depth = 3 if tier == 'quick' else 4
        ops = ['rnd', 'weak_fail', 'inj']
        # every sequence of operations from a freshly seeded state
        todo = [(p, (), 0) for p in ps]
        allowed = set(rest) | conf | {self.cntloc}
        while todo:
            p, h, extra = todo.pop()
            for op in ops:
                args = [p.eng.sym('extra', 'max')] if op == 'rnd' else []
                br = []
                qs = self.watch(p, op, args, br)
                for q in qs:
                    if q.end == 'cut':
                        continue
                    if not chk.ob(rd_, q.end == 'ret', op, '%s ends with %s' % (op, q.end), q):
                        continue
                    (s, n), c = self.state(q) if self.state(q)[0] else ((None, None), None)
                    draws = [e for e in q.ev if e.k == 'call' and e.sn in (MT + 'operator()', MT + 'discard') and q.res(e.eng) == self.eng]
                    alien = [e for e in q.ev[q.nprev:] if e.k == 'call' and e.sn.startswith(MT) and (e.sn not in (MT + 'operator()',) or q.res(e.args[0]) != self.eng)]
                    chk.ob(rd_, not alien, op, '%s uses another engine or moves the engine without drawing' % op if alien else '', q)
                    chk.ob(rd_, s is not None and s[0] == 'seed' and c == n, op, 'after %s the engine made %s draws but %s are counted' % ('/'.join(h + (op,)), n, c) if c != n else '', q)
                    self.influence(rr, q, op, br, allowed)
                    if op == 'rnd':
                        one = len([e for e in q.ev[q.nprev:] if e.k == 'call' and e.sn == MT + 'operator()'])
                        chk.ob(rd_, one >= 1, op, 'a random number is made without a draw', q)
                        chk.ob(rr, any(x[0] == 'mtout' for x in depset(q, q.ret)), op, 'a random number does not depend on the draw', q)
                    if len(h) + 1 < depth:
                        todo.append((q, h + (op,), 0))
        # forwarding
        for p in ps:
            for c0 in range(0, 3):
                q = p
                for i in range(c0):
                    q = [x for x in C.resume(q, 'rnd', [7]) if x.end == 'ret'][0]
                for n in range(0, (6 if tier == 'quick' else 12)):
                    for z in C.resume(q, 'rep_count', [n]):
                        if not chk.ob(rc, z.end == 'ret', 'ForwardToFaultRandomCount', 'ends with %s going from %d to %d' % (z.end, c0, n), z):
                            continue
                        e, c = self.state(z)
                        w = max(n, c0)
                        chk.ob(rc, e is not None and e[1] == w and c == w, 'ForwardToFaultRandomCount', 'going from draw %d to %d leaves the engine at draw %s and the count at %s' % (c0, n, e and e[1], c), z)
                        chg = self.changed(q, z) - {self.cntloc, self.engname()}
                        chk.ob(rc, not chg, 'ForwardToFaultRandomCount', 'forwarding also changes %s' % sorted(chg) if chg else '', z)
        # random devices
        for p in ps:
            d = p.eng.sym('alloca', 'device')
            for q in C.resume(p, 'rd_make', [d]):
                if not chk.ob(dev, q.end == 'ret', 'random_device', 'construction ends with %s' % q.end, q):
                    continue
                e = [q.eng.bases[q.res(v)[0]].info for o, (s, v) in q.st.mem.get(d[0], {}).items() if issym(q.res(v)) and q.eng.bases[q.res(v)[0]].kind == 'mt']
                chk.ob(dev, len(e) == 1 and e[0][0][0] == 'seed' and self.plain(q, e[0][0][1], q.prev.args and self.seedarg or self.seedarg) and e[0][1] == 0, 'random_device',
                       'the generator of a random_device is not seeded by the seed of the run', q)
                for z in C.resume(q, 'rd_call', [d]):
                    ds = depset(z, z.ret)
                    chk.ob(dev, z.end == 'ret' and bool(ds) and all(x[0] == 'mtout' for x in ds), 'random_device', 'a random_device value depends on %s' % sorted(map(str, ds)), z)
        return restored

    def engname(self):
        b = self.live[0].eng.bases[self.eng[0]]
        return (b.info, self.eng[1])

    def changed(self, a, b):
        out = set()
        for k, m in b.st.mem.items():
            if b.eng.bases[k].kind != 'global' or b.eng.bases[k].info.startswith(('_ZGV', '__tls')):
                continue
            for o, (s, v) in m.items():
                w = a.st.mem.get(k, {}).get(o)
                if w is None:
                    v2 = b.res(v)
                    if issym(v2) and b.eng.bases[v2[0]].kind == 'load' and b.eng.bases[v2[0]].info[:2] == (k, o):
                        continue
                    out.add((b.eng.bases[k].info, o))
                elif b.res(w[1]) != b.res(v):
                    out.add((b.eng.bases[k].info, o))
        return out

    def count_location(self, p):
        q = [x for x in self.C.resume(p, 'rec_count', []) if x.end == 'ret'][0]
        l = [e for e in q.ev[q.nprev:] if e.k in ('ld', 'ald', 'aload')]
        if not l:
            raise AnalysisError('the draw count is not recognised')
        a = q.res(l[-1].addr)
        return (q.eng.bases[a[0]].info, a[1])

    def watch(self, p, op, args, br):
        p.eng.on_branch = lambda st, fr, c: br.append((st, fr.fn, c))
        try:
            return self.C.resume(p, op, args)
        finally:
            p.eng.on_branch = None

    def influence(self, rid, q, op, br, allowed):
        """every location that decides is set by the configuration, the seed, or the restored state"""
        def bad(ds):
            return sorted('%s+%d' % (x[1], x[2]) if x[0] == 'global' else '%s %s' % (x[0], x[1]) for x in ds
                          if x[0] == 'global' and x[1:] not in allowed and not str(x[1]).startswith(('_ZGV', '__tls')) or x[0] in ('undef', 'call', 'aload'))
        for st, fn, c in br:
            ds = set()
            deps(q.eng, st, c, ds, set())
            b = bad(ds)
            self.chk.ob(rid, not b, fn.sn, '%s decides by %s, which the seed, the configuration and the injector state do not determine' % (fn.sn, b) if b else '', q)
        if q.ret is not None:
            b = bad(depset(q, q.ret))
            self.chk.ob(rid, not b, op, 'the result of %s depends on %s' % (op, b) if b else '', q)
        for k, m in q.st.mem.items():
            if q.eng.bases[k].kind != 'global':
                continue
            for o, (s, v) in m.items():
                if (q.eng.bases[k].info, o) in self.rest:
                    b = bad(depset(q, v))
                    self.chk.ob(rid, not b, op, '%s makes the injector state depend on %s' % (op, b) if b else '', q)


# ---------------------------------------------------------------- one outcome

class Stop(Exception):
    pass


class Mute:
    """obligations of the contracts of C18 are not reported here"""
    def rule(self, rid, text):
        return rid

    def ob(self, rid, ok, where, msg='', path=None):
        return ok


class Unique(Ctx):
    """every operation on a concrete placement of fibers has one outcome"""

    def __init__(self, chk, probe, rid, **kw):
        super().__init__(chk, probe, **kw)
        self.rid = rid

    def resume(self, p, fn, vals, init=None):
        ps = super().resume(p, fn, vals, init)
        # where a stack lies depends on earlier runs, nothing else may (C17.stack)
        return ps if fn in ('fb_make', 'th_make') else self.judge(ps)

    def judge(self, ps):
        l = [q for q in ps if q.end in ('ret', 'switch', 'cut')]
        if len(l) > 1:
            a, b = l[0], l[1]
            self.chk.ob(self.rid, False, a.entry.split(' > ')[-1], 'two outcomes for the same placement and draws: %s' % self.why(l), a)
            raise Stop()
        for q in l:
            self.chk.ob(self.rid, True, q.entry.split(' > ')[-1])
            v = q.res(q.ret) if q.ret is not None else None
            if issym(v):
                ds = {x for x in depset(q, v) if x[0] in ('global', 'undef', 'call') and q.eng.bases[v[0]].kind in ('load', 'op', 'undef', 'call')}
                self.chk.ob(self.rid, not ds, q.entry.split(' > ')[-1], 'the result depends on %s' % sorted(map(str, ds)), q)
        return ps

    def why(self, l):
        ds = set()
        for q in l:
            old = q.prev.st.eq if hasattr(q, 'prev') else {}
            for k in [k for k in q.st.eq if k not in old]:
                deps(q.eng, q.st, k if type(k) is tuple else (k, 0), ds, set())
        ds = {x for x in ds if x[0] in ('global', 'undef', 'call', 'load')}
        return 'depends on %s' % sorted('%s+%s' % (x[1], x[2]) for x in ds)[:4] if ds else 'undetermined'

    def account(self, e, name, ps, steps=None):
        super().account(e, name, ps, steps)


def unique(chk, tier):
    rid = chk.rule('C17.unique', 'every scheduling operation on every placement of fibers has one outcome for given draws')
    C = Unique(chk, 'fiber.cpp', rid, fault=2)
    mute = Mute()
    try:
        n = 2 if tier == 'quick' else 3
        W = World(mute, C, n + 2)
    except Stop:
        return None, C
    ws = worlds(n, list(PLACE))

    def one(l):
        for k in l:
            try:
                Sched(mute, W, k).run()
            except Stop:
                pass
            except AnalysisError:
                if not chk.viol:
                    raise
    chk.parallel([ws[i::32] for i in range(min(32, len(ws)))], one)
    # the loop leaves nothing behind
    q0 = chk.rule('C17.quiesce', 'when the loop ends the current fiber is none')
    s = Sched(mute, W, ())
    for q in C.resume(s.p, C_fn(C, SCH + 'RunLoop'), [W.S]):
        chk.ob(q0, q.end == 'ret' and rd(W.eng, q.st, W.cur, 0) == 0, 'RunLoop', 'the loop ends without forgetting the current fiber', q)
    return W, C


def C_fn(C, sn):
    l = [f for f in C.m.fns.values() if f.sn == sn and f.blocks]
    if len(l) != 1:
        raise AnalysisError('%s not found' % sn)
    return l[0].name


def clocks(chk, C, W):
    r = chk.rule('C17.clock', 'the clocks of the fiber backend show the virtual time of the scheduler')
    for t in (0, 10, 12345):
        for n in ('now_steady', 'now_system', 'now_high'):
            try:
                for q in C.resume(W.settime(W.setcur(W.start, W.F[0]), t), n, []):
                    chk.ob(r, q.end == 'ret' and q.res(q.ret) == t, n, '%s is %s at virtual time %d' % (n, q.fmt(q.ret) if q.ret is not None else q.end, t), q)
            except Stop:
                pass


def c17(chk, tier):
    W, U = unique(chk, tier)
    if W:
        clocks(chk, U, W)
    C = Ctx(chk, 'fiber.cpp', fault=2)
    R = Rnd(chk, C)
    R.run(tier)
    sources(chk, C)
    restored = {(a, b) for a, b in getattr(R, 'rest', {})} | ({R.cntloc} if getattr(R, 'cntloc', None) else set()) | ({(R.engname()[0], None)} if R.live else set())
    quiet = {W.eng.bases[W.cur[0] if type(W.cur) is tuple else W.cur].info} if W else set()
    carried(chk, C, restored, quiet)
    for probe in (['exe.cpp'] if tier == 'quick' else ['exe.cpp', 'core.cpp', 'when.cpp', 'event.cpp', 'mutex.cpp', 'coro.cpp']):
        X = Ctx(chk, probe, fault=2)
        sources(chk, X)
        carried(chk, X, restored, quiet)
