"""C14 (coroutine Mutex) and C15 (coroutine SharedMutex) on the mutex probe."""
from rules_exe import *

CFG = ['00', '01', '10', '11']


def loads(p, addr, before=None):
    return [e for e in p.ev if e.k in ('ld', 'aload', 'ald') and loc_eq(p, e.addr, addr) and (before is None or e.i < before)]


def retbool(p):
    v = p.res(p.ret)
    return v & 1 if type(v) is int else None


def queued_into(p, e, b):
    """a Submit hands the core at base b to its own executor: the executor object was read from or written to a field of the core"""
    x = p.res(e.args[0])
    last = {}
    for y in p.ev:
        if y.i >= e.i:
            break
        if y.k in ('ld', 'st') and base(p, y.addr) == b and issym(p.res(y.val)) and p.res(y.addr)[1] != 0:
            last[p.res(y.addr)] = p.res(y.val)
    return x in last.values()


def grants(p, skip=()):
    """cores resumed on this path: (event, base, how) by Submit to an executor or by symmetric transfer"""
    out = []
    for e in p.ev:
        if e.k == 'vcall' and e.m == 'Submit':
            b = base(p, e.args[1])
            if b not in skip:
                out.append((e, b, 'submit'))
        elif e.k == 'vcall' and e.m == 'Curr':
            if p.end == 'ret' and p.res(p.ret) is not None and p.res(e.ret) == p.res(p.ret):
                out.append((e, base(p, e.obj), 'transfer'))
            else:
                out.append((e, base(p, e.obj), 'lost transfer'))
    return out


# ---------------------------------------------------------------- Mutex

class Mx:
    def __init__(self, C, cfg):
        self.C, self.cfg = C, cfg
        self.batching, self.fifo = cfg[0] == '1', cfg[1] == '1'
        self.free = self.held = self.word = None
        for p in C.paths('mx%s_trylock' % cfg):
            for e in p.ev:
                if e.k == 'cas' and e.ok and base(p, e.addr) == base(p, p.args[0]):
                    self.word = p.res(e.addr)[1]
                    self.free, self.held = p.res(e.old), p.res(e.des)
        self.link = None
        for p in C.paths('mx%s_lock_suspend' % cfg):
            for e in p.ev:
                if e.k == 'cas' and e.ok and base(p, e.des) == base(p, p.args[1]):
                    self.node = p.res(e.des)[1]
                    for x in p.ev:
                        if x.k == 'st' and base(p, x.addr) == base(p, p.args[1]) and x.i < e.i:
                            self.link = p.res(x.addr)[1] - self.node
        self.recv = None
        for p in C.paths('mx%s_unlock_here' % cfg):
            for e in p.ev:
                if e.k == 'st' and base(p, e.addr) == base(p, p.args[0]):
                    self.recv = p.res(e.addr)[1]
        for n in ('word', 'free', 'held', 'link', 'recv'):
            if getattr(self, n) is None:
                raise AnalysisError('Mutex<%s>: the role of "%s" was not recovered' % (cfg, n))


def link_target(p, X, v):
    """core designated by a link value (links point to the Node inside a core)"""
    v = p.res(v)
    return 0 if type(v) is int and v == 0 else v


def same_core(p, X, a, b):
    """a: core pointer, b: link value (node pointer or null): do they designate the same core"""
    a, b = p.res(a), p.res(b)
    for x in ((b[0], b[1] - X.link) if issym(b) else b, b):
        if p.decide_eq(a, x) is True:
            return True
    return False


def release_rule(p, X, mb, curr, ob, resume_curr):
    """one release operation of the lock: becomes free, or exactly one waiter is granted and the rest stay queued"""
    wa, ra = (mb[0], mb[1] + X.word), (mb[0], mb[1] + X.recv)
    ws = writes(p, wa)
    rel = [w for w in ws if w[2] == X.free]
    skip = [curr] if curr is not None else []
    gr = grants(p, skip)
    ob('release', not [g for g in gr if g[2] == 'lost transfer'], where(p), 'a waiter is dequeued for a transfer that is not performed', p)
    ob('release', len(rel) + len(gr) == 1, where(p), 'one unlock releases the lock %d times and grants it %d times' % (len(rel), len(gr)), p)
    if len(rel) + len(gr) != 1:
        return
    rl = loads(p, ra)
    r0 = p.res(rl[0].val) if rl else None
    empty = p.decide_eq(r0, 0) if r0 is not None else None
    takes = [w for w in ws if w not in rel]
    if rel:
        e, old, new, order = rel[0]
        ob('release', old == X.held and e.k == 'cas', where(p, e), 'the lock is released although coroutines may be waiting in the inbox', p)
        ob('release', empty is True and not takes, where(p, e), 'the lock is released although received waiters are left', p)
        ob('hb', has_rel(order), where(p, e), 'releasing the lock does not release the critical section', p)
        t = [x for x in touches(p, mb[0], e.i) if x.k in ('ld', 'st', 'aload', 'astore', 'cas', 'rmw')]
        ob('after', not t, where(p, t[0] if t else e), 'the mutex is used after it was released', p)
        return
    g, gb, how = gr[0]
    ob('release', empty is not None, where(p, g), 'a waiter is granted without looking at the received waiters', p)
    fin = p.st.mem.get(mb[0], {}).get(ra[1])
    fin = p.res(fin[1]) if fin else None
    if empty is False:
        ob('grant', p.decide_eq((gb, 0), r0) is True and not takes, where(p, g), 'a received waiter is skipped', p)
        node = r0
        rest = next((p.res(x.val) for x in loads(p, (node[0], node[1] + X.link))), None)
        ob('grant', rest is not None and fin is not None and same_core(p, X, fin, rest), where(p, g), 'the waiters behind the granted one are lost or repeated', p)
    else:
        ob('grant', len(takes) == 1, where(p, g), 'the inbox is taken %d times' % len(takes), p)
        if len(takes) != 1:
            return
        e, head, new, order = takes[0]
        ob('grant', p.decide_eq(new, X.held) is True, where(p, e), 'taking the inbox leaves the lock in a wrong state', p)
        ob('hb', has_acq(order), where(p, e), 'taking the waiters does not acquire', p)
        seen = [y for y in p.ev if y.i < e.i and y.k in ('aload', 'cas') and loc_eq(p, y.addr, wa)]
        ok = any(p.decide_eq(y.val if y.k == 'aload' else y.old, X.held) is False for y in seen)
        ob('grant', ok, where(p, e), 'waiters are taken from an inbox that may be empty', p)
        chain = [head]
        while chain[-1] != 0 and len(chain) < 9:
            n = chain[-1]
            l = next((x for x in loads(p, (n[0], n[1] + X.link)) if x.i > e.i), None)
            if l is None:
                break
            v = p.res(l.val)
            chain.append(0 if p.decide_eq(v, 0) else (v[0], v[1] - X.link))
        nodes = [c for c in chain if c != 0]
        want = None
        if X.fifo:
            if chain[-1] != 0:
                ob('grant', False, where(p, g), 'the oldest waiter is not searched for', p)
                return
            want, rest = nodes[-1], nodes[:-1][::-1]
        else:
            want, rest = nodes[0], nodes[1:] if chain[-1] == 0 else None
        ob('fifo' if X.fifo else 'grant', gb == want[0], where(p, g), 'the granted waiter is not the %s one' % ('first arrived' if X.fifo else 'received'), p)
        # what stays queued
        if X.fifo:
            cur, left = fin, []
            while issym(cur) and len(left) < 9 and p.decide_eq(cur, 0) is not True:
                left.append(cur[0])
                m = p.st.mem.get(cur[0], {}).get(cur[1] + X.link)
                if m is None:
                    break
                v = p.res(m[1])
                cur = 0 if p.decide_eq(v, 0) else (v[0], v[1] - X.link) if issym(v) else v
            ob('fifo', left == [c[0] for c in rest] and p.decide_eq(cur, 0) is True, where(p, g), 'the remaining waiters are not kept in arrival order', p)
        else:
            nxt = next((p.res(x.val) for x in loads(p, (want[0], want[1] + X.link)) if x.i > e.i), None)
            ob('grant', nxt is not None and fin is not None and same_core(p, X, fin, nxt), where(p, g), 'the waiters behind the granted one are lost or repeated', p)
    if how == 'submit':
        ob('exec', queued_into(p, g, gb), where(p, g), 'the granted coroutine is not resumed by its own executor', p)
        t = touches(p, gb, g.i) + [x for x in touches(p, mb[0], g.i) if x.k in ('ld', 'st') and loc_eq(p, x.addr, ra)]
        ob('after', not t, where(p, t[0] if t else g), 'the granted coroutine or the waiter list is used after the hand-over', p)
    else:
        ob('exec', curr is not None, where(p, g), 'transfer without a current coroutine', p)
        # the granted coroutine continues on the thread of the current one: it must own that executor
        cx = [p.res(x.val) for x in p.ev if x.k == 'ld' and base(p, x.addr) == curr and issym(p.res(x.val))]
        mine = {}
        for o, (sz, v) in p.st.mem.get(gb, {}).items():
            mine[o] = p.res(v)
        wr = [x for x in p.ev if x.k == 'st' and base(p, x.addr) == gb and p.res(x.val) in cx and loc_now(p, x)]
        ob('exec', bool(wr), where(p, g), 'a coroutine resumed in place keeps another executor as its own', p)


def loc_now(p, x):
    a = p.res(x.addr)
    m = p.st.mem.get(a[0], {}).get(a[1])
    return m is not None and p.res(m[1]) == p.res(x.val)


def resumed_curr(p, X, curr, ob, ex=None):
    """a suspended unlocker is resumed exactly once, by its own executor (the one named for UnlockOn)"""
    subs = [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit' and base(p, e.args[1]) == curr]
    ready = p.res(p.ret) == 0
    ob('curr', len(subs) == (0 if ready else 1), where(p), 'the unlocking coroutine is resumed %d times' % (len(subs) + ready), p)
    for e in subs:
        ob('exec', queued_into(p, e, curr), where(p, e), 'the unlocking coroutine is not resumed by its own executor', p)
        if ex is not None:
            ob('exec', p.decide_eq(e.args[0], ex) is True, where(p, e), 'the unlocking coroutine does not resume on the requested executor', p)
        t = [x for x in touches(p, curr, e.i)]
        ob('after', not t, where(p, t[0] if t else e), 'the unlocking coroutine is used after it was resumed', p)
    if not ready:
        v = p.res(p.ret)
        ok = any(how == 'transfer' for _, _, how in grants(p)) or noop(p, v)
        ob('curr', ok, where(p), 'a suspended unlock neither transfers nor returns to the executor', p)


def noop(p, v):
    return issym(v) and p.eng.bases[v[0]].kind in ('global', 'fn') and 'oop' in str(p.eng.bases[v[0]].info)


def mutex_base(p, X, g):
    """the mutex a guard refers to (guards keep it with a tag bit)"""
    for e in p.ev:
        if e.k in ('aload', 'cas', 'rmw', 'ld') and base(p, e.addr) not in (g, None):
            a = p.res(e.addr)
            k = p.eng.bases[a[0]]
            if k.kind == 'op' and k.info[0] == 'and' or k.kind in ('load',):
                o = a[1]
                if e.k != 'ld' and o >= X.word:
                    return (a[0], a[1] - X.word)
                if e.k == 'ld' and o >= X.recv and p.loc(a) and k.kind == 'op':
                    return (a[0], a[1] - X.recv)
    return None


def lock_rule(p, X, mb, curr, ob, got):
    """got: True when the operation reports the lock as acquired, False when the coroutine is queued"""
    wa = (mb[0], mb[1] + X.word)
    ws = writes(p, wa)
    acq = [w for w in ws if w[1] == X.free and p.decide_eq(w[2], X.held) is True]
    pub = [w for w in ws if curr is not None and base(p, w[2]) == curr]
    ob('lock', len(ws) == len(acq) + len(pub), where(p), 'a lock attempt overwrites the lock word', p)
    if got:
        ob('lock', len(acq) == 1 and not pub, where(p), 'the lock is reported as acquired without acquiring it (%d acquisitions, %d registrations)' % (len(acq), len(pub)), p)
        for w in acq:
            ob('hb', has_acq(w[3]), where(p, w[0]), 'acquiring the lock does not acquire', p)
    elif got is False and curr is not None:
        ob('lock', len(pub) == 1 and not acq, where(p), 'a suspended lock request is registered %d times (%d acquisitions)' % (len(pub), len(acq)), p)
        for e, old, new, order in pub:
            ob('lock', p.decide_eq(old, X.free) is False, where(p, e), 'a request is queued at a free mutex: nobody will resume it', p)
            ob('hb', has_rel(order), where(p, e), 'registering the request does not release', p)
            lk = None
            n = p.res(new)
            for x in p.ev:
                if x.i < e.i and x.k == 'st' and loc_eq(p, x.addr, (n[0], n[1] + X.link)):
                    lk = p.res(x.val)
            ok = lk is not None and (p.decide_eq(lk, old) is True or issym(lk) and p.decide_eq((lk[0], lk[1] - X.link), old) is True)
            ob('lock', ok and not [x for x in touches(p, curr, e.i) if x.k != 'ld' or True], where(p, e), 'the registered request does not continue with the previous waiters, or is used afterwards', p)
    else:
        ob('lock', not acq and not pub, where(p), 'a failed attempt changes the lock', p)


def mutex_rules(chk, C, pid, cfgs=CFG, parts=('lock', 'release', 'grant', 'fifo', 'curr', 'exec', 'hb', 'after', 'sticky')):
    txt = {'lock': 'a lock request is granted by free -> held, or registered once at a mutex that is not free; Try* changes nothing when it fails',
           'release': 'an unlock either frees the lock (no waiter anywhere) or grants it to exactly one waiter',
           'grant': 'the granted waiter is the next received one, taken from a non-empty list; all others stay queued',
           'fifo': 'with FIFO the first arrived waiter is granted and the rest keep their order',
           'curr': 'the unlocking coroutine continues or is resumed exactly once', 'exec': 'coroutines are resumed by their own executor',
           'hb': 'acquiring acquires, releasing and registering release', 'after': 'nothing handed over is used afterwards',
           'sticky': 'a sticky guard remembers the executor only while it waits, before the request is visible'}
    R = {k: chk.rule('%s.%s' % (pid, k), txt[k]) for k in parts}

    def ob(k, ok, w, msg='', p=None):
        if k in R:
            chk.ob(R[k], ok, w, msg, p)

    def each(entry, k='release'):
        for p in C.paths(entry):
            if p.end == 'cut':
                continue
            if p.end != 'ret':
                ob(k, False, where(p), 'ends by %s' % p.end, p)
                continue
            yield p

    def locked(p, X, mb):
        """precondition of unlocking: the mutex is not free"""
        wa = (mb[0], mb[1] + X.word)
        for e in p.ev:
            if e.k in ('aload', 'cas', 'rmw') and loc_eq(p, e.addr, wa):
                v = e.val if e.k == 'aload' else e.old
                if p.decide_eq(v, X.free) is True:
                    return False
                v = p.res(v)
                if type(v) is int and v != X.held:
                    return False        # not the address of a core
                if e.k == 'rmw' and p.decide_eq(v, X.held) is True:
                    pre = [y for y in p.ev if y.i < e.i and y.k in ('aload', 'cas') and loc_eq(p, y.addr, wa)]
                    if any(p.decide_eq(y.val if y.k == 'aload' else y.old, X.held) is False for y in pre):
                        return False        # waiters do not leave the inbox of a held mutex
        return True

    for c in cfgs:
        X = Mx(C, c)
        for p in each('mx%s_make' % c, 'lock'):
            m = p.st.mem.get(base(p, p.args[0]), {})
            ok = X.word in m and p.res(m[X.word][1]) == X.free and X.recv in m and p.res(m[X.recv][1]) == 0
            ob('lock', ok, where(p), 'a new mutex is not free', p)
        for n in ('trylock', 'lock_ready'):
            for p in each('mx%s_%s' % (c, n), 'lock'):
                for q, v in split_ret(p):
                    lock_rule(q, X, p.res(p.args[0]), None, ob, bool(v))
        for p in each('mx%s_lock_suspend' % c, 'lock'):
            for q, v in split_ret(p):
                lock_rule(q, X, p.res(p.args[0]), base(p, p.args[1]), ob, not v)
        for p in each('mx%s_unlock_here' % c):
            mb = p.res(p.args[0])
            if locked(p, X, mb):
                release_rule(p, X, mb, None, ob, False)
        for n in ('unlock', 'unlock_on'):
            for p in each('mx%s_%s' % (c, n)):
                mb, curr = p.res(p.args[0]), base(p, p.args[1])
                if locked(p, X, mb):
                    release_rule(p, X, mb, curr, ob, True)
                    resumed_curr(p, X, curr, ob, p.args[2] if n == 'unlock_on' else None)
        # sticky guards
        for p in each('mx%s_sticky_unlock' % c, 'sticky'):
            g, curr = base(p, p.args[0]), base(p, p.args[1])
            mb = mutex_base(p, X, g)
            if mb is None:
                raise AnalysisError('sticky unlock: mutex of the guard not found')
            if not locked(p, X, mb):
                continue
            ex = [p.res(e.val) for e in p.ev if e.k == 'ld' and base(p, e.addr) == g]
            ready = p.res(p.ret) == 0
            nulls = [v for v in ex if p.decide_eq(v, 0)]
            ob('sticky', bool(nulls) == ready, where(p), 'a sticky unlock returns to an executor iff the lock had to wait', p)
            release_rule(p, X, mb, curr, ob, True)
            subs = [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit' and base(p, e.args[1]) == curr]
            resumed_curr(p, X, curr, ob, subs[0].args[0] if subs and p.res(subs[0].args[0]) in ex else (None if ready else 0))
            ob('sticky', owns(p, g) is False, where(p), 'the guard still owns the lock after Unlock', p)
        for n, gi in (('sticky_lock', 0), ('sticky_guard', None), ('guard', None)):
            for p in each('mx%s_%s' % (c, n), 'sticky'):
                if n == 'sticky_lock':
                    g, curr = base(p, p.args[0]), base(p, p.args[1])
                    mb = mutex_base(p, X, g)
                    got = None
                else:
                    mb, curr = p.res(p.args[0]), base(p, p.args[1])
                    g = base(p, p.args[2])
                wa = (mb[0], mb[1] + X.word)
                pub = [w for w in writes(p, wa) if base(p, w[2]) == curr]
                if n == 'sticky_lock':
                    for q, v in split_ret(p):
                        lock_rule(q, X, mb, curr, ob, not v)
                else:
                    lock_rule(p, X, mb, curr, ob, not pub)
                if n == 'guard':
                    ob('sticky', owns(p, g) is True, where(p), 'the guard of a granted lock does not own it', p)
                    continue
                ob('sticky', owns(p, g) is True, where(p), 'the guard of a granted lock does not own it', p)
                # executor remembered: null unless queued; own executor when queued, written before the request is visible
                ex = [(o, p.res(v)) for o, (sz, v) in p.st.mem.get(g, {}).items() if o > 0 and sz == 8]
                last = ex[-1][1] if ex else None
                mine = [p.res(x.val) for x in p.ev if x.k == 'ld' and base(p, x.addr) == curr]
                if pub:
                    ob('sticky', last in mine, where(p, pub[0][0]), 'a waiting sticky guard does not remember the executor of its coroutine', p)
                    if n == 'sticky_lock':
                        t = [x for x in p.ev if x.i > pub[0][0].i and x.k == 'st' and base(p, x.addr) == g]
                        ob('sticky', not t, where(p, t[0] if t else None), 'the guard is written after the request became visible', p)
                else:
                    ob('sticky', last == 0, where(p), 'a sticky guard that did not wait remembers an executor', p)


def state_of(p, g, init=False):
    """final (or initial) tagged pointer of the guard at base g"""
    if init:
        l = next((x for x in p.ev if x.k == 'ld' and loc_eq(p, x.addr, (g, 0))), None)
        return p.res(l.val) if l else None
    m = p.st.mem.get(g, {}).get(0)
    return p.res(m[1]) if m else None


def owns(p, g):
    v = state_of(p, g)
    return bit0(p, v)


def bit0(p, v):
    if v is None:
        return None
    v = p.res(v)
    if type(v) is int:
        return bool(v & 1)
    r = p.decide_eq(p.eng.mkop(p.st, 'and', [v, 1], 64), 0)
    if r is not None:
        return not r
    b = p.eng.bases[v[0]]
    if b.kind == 'arg':
        return bool(v[1] & 1)        # a mutex address is even
    if b.kind == 'op' and b.info[0] == 'or' and any(type(x) is int and x & 1 for x in b.info[1:]):
        return True
    return None


def ptrof(p, v):
    v = p.res(v)
    return p.res(p.eng.mkop(p.st, 'and', [v, M64 ^ 1], 64)) if issym(v) else v & ~1


GUARDS = {'g': ('mx', 'UnlockHere', 'TryLock'), 'sug': ('sm', 'UnlockHere', 'TryLock'), 'ssg': ('sm', 'UnlockHereShared', 'TryLockShared')}


def guard_rules(chk, C, pid, kinds=('g', 'sg')):
    r = chk.rule(pid + '.guard', 'a guard releases exactly the lock it owns, once, and moving or swapping transfers ownership')

    def opq(f):
        return f.sn.split('::')[-1] in ('UnlockHere', 'UnlockHereShared', 'TryLock', 'TryLockShared', 'TryLockAwait') and ('MutexImpl' in f.sn)

    def mcalls(p):
        return [e for e in p.ev if e.k == 'call' and 'MutexImpl' in (e.sn or '')]

    def each(n):
        for p in C.paths(n, opaque=opq):
            if p.end != 'ret':
                chk.ob(r, False, where(p), 'ends by %s' % p.end, p)
            else:
                yield p

    def named(p, es, nm):
        return [e for e in es if e.sn.split('::')[-1].replace('Await', '') == nm]

    pres = [k for k in ('g', 'sg', 'sug', 'ssg') if k in kinds]
    for k in pres:
        un = 'UnlockHereShared' if k == 'ssg' else 'UnlockHere'
        tl = 'TryLockShared' if k == 'ssg' else 'TryLock'
        for p in each(k + '_dtor'):
            g = base(p, p.args[0])
            s = state_of(p, g, True)
            cs = mcalls(p)
            o = bit0(p, s)
            ok = o is not None and len(cs) == (1 if o else 0) and len(named(p, cs, un)) == len(cs) and all(p.res(e.args[0]) == ptrof(p, s) for e in cs)
            chk.ob(r, ok, where(p), 'destroying a guard that %s the lock performs %s' % ('owns' if o else 'does not own', [e.sn.split('::')[-1] for e in cs] or 'nothing'), p)
        if k in ('g', 'ssg'):
            for p in each(k + '_unlock_here'):
                g = base(p, p.args[0])
                s = state_of(p, g, True)
                cs = mcalls(p)
                ok = len(cs) == 1 and len(named(p, cs, un)) == 1 and p.res(cs[0].args[0]) == ptrof(p, s) and state_of(p, g) == ptrof(p, s)
                chk.ob(r, ok, where(p), 'UnlockHere does not release the lock once and give up ownership', p)
            for p in each(k + '_trylock'):
                g = base(p, p.args[0])
                s = state_of(p, g, True)
                cs = mcalls(p)
                for q, v in split_ret(p):
                    ok = len(cs) == 1 and len(named(p, cs, tl)) == 1 and q.is_true(cs[0].ret) == bool(v) and bit0(q, state_of(q, g)) == bool(v)
                    chk.ob(r, ok, where(p), 'TryLock of a guard disagrees with the mutex', p)
    if 'g' in kinds:
        for p in each('g_release'):
            g = base(p, p.args[0])
            s = state_of(p, g, True)
            chk.ob(r, not mcalls(p) and state_of(p, g) == 0 and p.res(p.ret) == ptrof(p, s), where(p), 'Release does not just forget the mutex', p)
        for p in each('g_owns'):
            s = state_of(p, base(p, p.args[0]), True)
            for q, v in split_ret(p):
                chk.ob(r, bit0(q, s) == bool(v), where(p), 'OwnsLock is wrong', p)
        for p in each('g_mutex'):
            s = state_of(p, base(p, p.args[0]), True)
            chk.ob(r, p.res(p.ret) == ptrof(p, s), where(p), 'Mutex() is not the guarded mutex', p)
        for n, want in (('g_defer', 0), ('g_adopt', 1)):
            for p in each(n):
                v = state_of(p, base(p, p.args[1]))
                chk.ob(r, not mcalls(p) and v is not None and owns_arg(p, v, p.args[0]) == want, where(p), 'a %s guard does not start %s' % (n[2:], 'owning' if want else 'unlocked'), p)
        for n in ('g_try', 'mx10_tryguard', 'mx01_tryguard'):
            for p in each(n):
                cs = mcalls(p)
                v = state_of(p, base(p, p.args[1]))
                for t in (0, 1):
                    for s in p.eng.assume(p.st.fork(), cs[0].ret, bool(t)) if cs else []:
                        q = Path(p.eng, s, p.end, p.ret)
                        chk.ob(r, len(cs) == 1 and owns_arg(q, state_of(q, base(p, p.args[1])), p.args[0]) == t, where(p), 'a try_to_lock guard disagrees with the mutex', p)
                chk.ob(r, bool(cs), where(p), 'a try_to_lock guard does not try', p)
    for n in [k + s for k in pres if k in ('g', 'sg') for s in ('_move', '_assign')] + (['g_swap'] if 'g' in kinds else []):
        for p in each(n):
            a, b = base(p, p.args[0]), base(p, p.args[1])
            cs = mcalls(p)
            if n.endswith('_move'):
                s = state_of(p, a, True)
                chk.ob(r, not cs and state_of(p, b) == s and state_of(p, a) == ptrof(p, s), where(p), 'moving a guard does not transfer ownership', p)
                if n == 'sg_move':
                    chk.ob(r, second(p, b) is not None and second(p, b) == init2(p, a), where(p), 'moving a sticky guard loses its executor', p)
            else:
                sa, sb = state_of(p, a, True), state_of(p, b, True)
                fa, fb = state_of(p, a), state_of(p, b)
                swap = fa == sb and fb == sa and not cs
                chk.ob(r, sa is not None and swap, where(p), 'exchanging guards loses or repeats a lock', p)
                if n == 'sg_assign':
                    chk.ob(r, second(p, a) == init2(p, b) and second(p, a) is not None and second(p, b) == init2(p, a), where(p), 'exchanging sticky guards mixes up their executors', p)


def second(p, g):
    m = p.st.mem.get(g, {}).get(8)
    return p.res(m[1]) if m else None


def init2(p, g):
    l = next((x for x in p.ev if x.k == 'ld' and loc_eq(p, x.addr, (g, 8))), None)
    return p.res(l.val) if l else None


def owns_arg(p, v, m):
    """v is the tagged pointer to m: 1 owning, 0 not, None neither"""
    v, m = p.res(v), p.res(m)
    if v == m:
        return 0
    for t in (0, 1):
        if p.res(p.eng.mkop(p.st, 'or', [m, t], 64)) == v:
            return t
    if issym(v):
        b = p.eng.bases[v[0]]
        if b.kind == 'op' and b.info[0] == 'or':
            x, y = b.info[1], b.info[2]
            x, y = p.res(x), p.res(y)
            if y == m:
                x, y = y, x
            if x == m:
                if type(y) is int:
                    return y & 1
                r = p.is_true(y) if p.eng.bases[y[0]].bits == 1 else p.decide_eq(y, 0)
                if p.eng.bases[y[0]].bits == 1:
                    return None if r is None else int(r)
                return None if r is None else int(not r)
    return None


def c14(chk, tier):
    C = XCtx(chk, 'mutex.cpp')
    mutex_rules(chk, C, 'C14')
    guard_rules(chk, C, 'C14')
