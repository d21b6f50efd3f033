"""C11 (Wait/WaitFor/WaitUntil) and C16 (WaitGroup, OneShotEvent): accounting of registrations, the counter and the ready flag."""
from corelib import *
from rules_exe import loc_eq, writes, touches, fates
from rules_handle import decs, incs


def m_evlock(self, st, f, ins, fn, args):
    a = self.resolve(st, args[0])
    self.event(st, 'call', {'sn': fn.sn, 'name': fn.name, 'args': [a], 'ret': 0, '_l': ins.get('l', 0)})
    ints(self, st, a)
    return self.finish_call(st, ins, 0)


def ints(self, st, a):
    """what other threads may have written under the mutex at a: the plain scalars of the object holding it"""
    if issym(a) and a[0] in st.mem:
        m = self.wmem(st, a[0])
        for o in [o for o, (s, v) in m.items() if s <= 8 and (type(self.resolve(st, v)) is int or self.bases[a[0]].kind not in ('alloca', 'new') and o != 0)]:
            del m[o]


def m_evwait(self, st, f, ins, fn, args):
    if fn.blocks and not fn.sn.startswith('std::condition_variable::__wait_until'):
        return NOMODEL
    timed = fn.sn != 'std::condition_variable::wait'
    a = [self.resolve(st, x) for x in args]
    ret = self.sym('call', ('cvwait', st.nev), 32) if timed else None
    d = None
    if timed and len(a) > 2:
        d = self.resolve(st, self.load(st, a[2], 8, 64, False)) if issym(a[2]) else a[2]
    self.event(st, 'call', {'sn': fn.sn, 'name': fn.name, 'args': a, 'ret': ret, 'deadline': d, '_l': ins.get('l', 0), 'wait': True, 'timed': timed})
    ints(self, st, a[0])
    if timed:
        st.rng[ret[0]] = (0, 1, 0, 1)
        return self.finish_call(st, ins, ret)
    return self.finish_call(st, ins)


def m_reg(self, st, f, ins, fn, args):
    """SetCallback, decided elsewhere: the callback is registered, or the result is there (acquired)"""
    if not self.regsplit:
        return NOMODEL
    a = [self.resolve(st, x) for x in args]
    out = []
    for v in (1, 0):
        s2 = st.fork()
        self.event(s2, 'call', {'sn': fn.sn, 'name': fn.name, 'args': a, 'ret': v, '_l': ins.get('l', 0)})
        if v:
            self.escape(s2, a[1])
        r = self.finish_call(s2, ins, v)
        if r is not CONT:
            raise AnalysisError('registration ends the path')
        out.append(s2)
    return out


class EvCtx(SCtx):
    def engine(self, **opts):
        e = SCtx.engine(self, **opts)
        e.models['pthread_mutex_lock'] = m_evlock
        e.models['std::condition_variable::wait'] = m_evwait
        e.regsplit = 'opaque' in opts
        for f in self.m.fns.values():
            if REG(f):
                e.models[f.sn] = m_reg
            if f.sn.startswith('std::condition_variable::__wait_until_impl'):
                e.models[f.sn] = m_evwait
        return e


REG = lambda f: re.match(r'yaclib::detail::BaseCore::SetCallbackImpl', f.sn) is not None


def lin64(p, v, depth=0):
    v = p.res(v)
    if type(v) is int:
        return {}, v & M64
    b = p.eng.bases[v[0]]
    if b.kind == 'op' and b.info[0] in ('add', 'sub') and depth < 12:
        a1, c1 = lin64(p, b.info[1], depth + 1)
        a2, c2 = lin64(p, b.info[2], depth + 1)
        s = 1 if b.info[0] == 'add' else -1
        d = dict(a1)
        for k, x in a2.items():
            d[k] = d.get(k, 0) + s * x
        return {k: x for k, x in d.items() if x}, (c1 + s * c2 + v[1]) & M64
    return {v[0]: 1}, v[1] & M64


def ladd(*ts):
    d, c = {}, 0
    for s, (a, k) in ts:
        for x, n in a.items():
            d[x] = d.get(x, 0) + s * n
        c += s * k
    return {x: n for x, n in d.items() if n}, c & M64


def const(l):
    """value of a linear form if it is a constant (as a signed number)"""
    if l is None or l[0]:
        return None
    return l[1] - (1 << 64) if l[1] >> 63 else l[1]


# ---------------------------------------------------------------- the ready flag

class Flag:
    """MutexEvent: mutex, flag and condition variable, relative to the mutex"""

    def __init__(self, chk, C, pid):
        r = chk.rule(pid + '.flag', 'the ready flag is set and tested under the mutex, the waiter is notified under the mutex, and waiting ends only when it is set')
        self.C, self.chk, self.r = C, chk, r
        self.d = self.cv = None
        for p in C.paths('me_set'):
            t = p.res(p.args[0])
            s = setting(p, 0)
            if p.end != 'ret' or s is None:
                chk.ob(r, False, where(p), 'Set does not set a flag under a mutex and notify', p)
                continue
            lk, fl, nt, un = s
            self.m = p.res(lk.args[0])[1] - t[1]
            self.f = p.res(fl.addr)[1] - t[1]
            self.c = p.res(nt.args[0])[1] - t[1]
            self.d, self.cv = self.f - self.m, self.c - self.m
            chk.ob(r, True, where(p))
        if self.d is None:
            raise AnalysisError('no ready flag found in MutexEvent::Set')
        for p in C.paths('me_new'):
            t = p.res(p.args[0])
            v = rd(p, p.st.mem, t[0], t[1] + self.f)
            chk.ob(r, p.end == 'ret' and (v if type(v) is int else 1) & 255 == 0, where(p), 'the event starts ready', p)
        for p in C.paths('me_reset'):
            t = p.res(p.args[0])
            v = rd(p, p.st.mem, t[0], t[1] + self.f)
            chk.ob(r, p.end == 'ret' and (v if type(v) is int else 1) & 255 == 0, where(p), 'Reset leaves the event ready', p)
        for n in ('me_wait', 'me_for', 'me_until'):
            k = 0
            for p in C.paths(n):
                if p.end == 'cut':
                    continue
                if p.end != 'ret':
                    chk.ob(r, False, where(p), 'waiting ends by %s' % p.end, p)
                    continue
                t = p.res(p.args[0])
                k += 1
                self.wait(p, n, (t[0], t[1] + self.m), p.ret if n != 'me_wait' else 1, p.args[1] if n != 'me_wait' else None)
            chk.ob(r, k > 1, n, 'no wait path found')

    def scan(self, p, m, name='', tm=None, since=-1, upto=None):
        """the locking discipline of waiting on the mutex at m -> (last flag value read or None, timed out, waits)"""
        chk, r = self.chk, self.r
        f = (m[0], m[1] + self.d)
        c = (m[0], m[1] + self.cv)
        held = False
        flag = None
        timeout = None
        obs = []
        for e in p.ev:
            if e.i <= since or upto is not None and e.i > upto:
                continue
            if e.k == 'call' and e.sn == 'pthread_mutex_lock' and p.res(e.args[0]) == m:
                chk.ob(r, not held, where(p, e), 'the mutex of the event is locked twice', p)
                held = True
            elif e.k == 'call' and e.sn == 'pthread_mutex_unlock' and p.res(e.args[0]) == m:
                chk.ob(r, held, where(p, e), 'the mutex of the event is unlocked without being held', p)
                held = False
            elif e.k == 'ld' and p.res(e.addr) == f:
                chk.ob(r, held, where(p, e), 'the ready flag is read without the mutex', p)
                flag = e
                obs.append(e)
            elif e.k == 'call' and e.d.get('wait') and p.res(e.args[0]) == c:
                chk.ob(r, held, where(p, e), 'waits without the mutex', p)
                flag = None
                obs.append(e)
                if e.timed:
                    if timeout is None and p.decide_eq(e.ret, 1) is True:
                        timeout = e
                    if tm is not None:
                        deadline(chk, r, p, e, tm, name)
        chk.ob(r, not held, where(p), 'returns with the mutex of the event held', p)
        return flag, timeout, obs

    def wait(self, p, name, m, ret, tm, since=-1):
        """a whole wait on the mutex at m: returns what it reports"""
        chk, r = self.chk, self.r
        flag, timeout, _ = self.scan(p, m, name, tm, since)
        ready = flag is not None and isset(p, flag.val)
        one = truth(p, ret)
        if one is None and flag is not None and issym(p.res(ret)) and bit(p, ret, flag.val):
            one = ready = 1
        chk.ob(r, one is not None, where(p), 'the result of waiting is not the ready flag', p)
        if one:
            chk.ob(r, ready, where(p), 'waiting ends although the event was not seen ready', p)
        elif one == 0:
            chk.ob(r, timeout is not None, where(p), 'reports a timeout before the deadline passed', p)
        return one


def truth(p, v):
    v = p.res(v)
    if type(v) is int:
        return int(v & 1)
    d = p.decide_eq(v, 0)
    return None if d is None else int(not d)


def bit(p, a, b):
    a, b = p.res(a), p.res(b)
    for _ in range(4):
        if a == b:
            return True
        if issym(a) and p.eng.bases[a[0]].kind == 'op' and p.eng.bases[a[0]].info[0] in ('and', 'zext', 'trunc', 'icmp'):
            i = p.eng.bases[a[0]].info
            if i[0] == 'icmp' and not (i[1] == 'ne' and p.res(i[3]) == 0):
                return False
            a = p.res(i[2] if i[0] == 'icmp' else i[1])
        else:
            break
    return a == b


def isset(p, v):
    v = p.res(v)
    if type(v) is int:
        return v & 255 != 0
    if p.decide_eq(v, 0, 8) is False:
        return True
    t = p.eng.mkop(p.st, 'trunc', (v,), 1)
    return p.is_true(t) is True


def isclear(p, v):
    v = p.res(v)
    if type(v) is int:
        return v & 255 == 0
    if p.decide_eq(v, 0, 8) is True:
        return True
    t = p.eng.mkop(p.st, 'trunc', (v,), 1)
    return p.is_true(t) is False


def deadline(chk, r, p, e, tm, name):
    d, c = lin64(p, e.deadline)
    tm = p.res(tm)
    v = p.st.user.get(('init', tm[0], tm[1]))
    v = p.res(v) if v is not None else None
    ok = v is not None and issym(v) and d.get(v[0]) == 1
    rest = {k: x for k, x in d.items() if v is None or k != v[0]}
    if 'until' in name:
        ok = ok and not rest and c == 0
    else:
        nows = [p.res(x.ret) for x in p.ev if x.k == 'call' and x.sn.endswith('::now') and x.ret is not None and x.i < e.i]
        ok = ok and c == 0 and len(rest) == 1 and all(x == 1 and any(issym(n) and n[0] == k for n in nows) for k, x in rest.items())
    chk.ob(r, ok, where(p, e), 'the deadline of the wait is not the requested one', p)


def setting(p, since, E=None):
    """(lock, flag store, notify, unlock) of a Set of a mutex event, if the path does exactly that after `since`"""
    ls = [e for e in p.ev if e.i >= since and e.k == 'call' and e.sn == 'pthread_mutex_lock']
    if len(ls) != 1:
        return None
    m = p.res(ls[0].args[0])
    us = [e for e in p.ev if e.i > ls[0].i and e.k == 'call' and e.sn == 'pthread_mutex_unlock' and p.res(e.args[0]) == m]
    if len(us) != 1:
        return None
    st = [e for e in p.ev if ls[0].i < e.i < us[0].i and e.k == 'st' and base(p, e.addr) == m[0] and type(p.res(e.val)) is int and p.res(e.val) & 255]
    nt = [e for e in p.ev if ls[0].i < e.i < us[0].i and e.k == 'call' and re.match(r'std::condition_variable::notify_(one|all)$', e.sn or '')]
    if len(st) != 1 or not nt or base(p, nt[0].args[0]) != m[0]:
        return None
    return ls[0], st[0], nt[0], us[0]


# ---------------------------------------------------------------- callbacks of the wait events

class Setter:
    """what one completion callback does, relative to the callback object"""

    def __init__(self, chk, C, F, fn, rid):
        """fn: Here or Next implementation (function name)"""
        self.path = self.count = self.m = None
        self.ok = False
        self.drop = None
        ps = C.paths(fn, key='cb')
        drops = set()
        for p in ps:
            w = where(p)
            if p.end == 'cut':
                continue
            if p.end != 'ret':
                chk.ob(rid, False, w, 'a completion ends by %s' % p.end, p)
                continue
            t = p.res(p.args[0])
            caller = p.res(p.args[-1])
            subs = [e for e in p.ev if e.k == 'rmw' and e.rmw in ('sub', 'add') and base(p, e.addr) != caller[0]]
            last = True
            E = None
            after = 0
            if subs:
                s = subs[0]
                n = p.res(s.val)
                chk.ob(rid, len(subs) == 1 and (n == 1 and s.rmw == 'sub' or n == M64 and s.rmw == 'add'), where(p, s), 'a completion counts itself %s' % ('%d times' % len(subs) if len(subs) != 1 else 'as %s' % p.fmt(s.val)), p)
                chk.ob(rid, has_rel(s.ord), where(p, s), 'a completion is counted without release', p)
                self.setc(p, t, s.addr)
                last = p.decide_eq(s.old, 1)
                after = s.i
                chk.ob(rid, last is not None, where(p, s), 'whether this completion is the last one is not decided', p)
                if last:
                    chk.ob(rid, has_acq(s.ord) or any(e.k == 'fence' and has_acq(e.ord) and e.i > s.i for e in p.ev), where(p, s), 'the last completion does not acquire the others', p)
                E = base(p, s.addr)
            if last:
                self.last(chk, C, F, rid, p, t, after)
            else:
                late = touches(p, E, after)
                chk.ob(rid, not late, where(p, late[0]) if late else w, 'the waiter is touched after its counter was decremented by a completion that is not the last', p)
                lt = touches(p, t[0], after)
                chk.ob(rid, not lt, where(p, lt[0]) if lt else w, 'the callback is touched after the counter was decremented', p)
            d = [e for e in decs(p, caller[0])]
            drops.add(len(d))
            tc = [e for e in p.ev if e.k in ('st', 'ast', 'astore', 'cas') and base(p, e.addr) == caller[0]]
            chk.ob(rid, not tc and not incs(p, caller[0]), where(p, tc[0]) if tc else w, 'a completion writes to the completed state', p)
            chk.ob(rid, not p.ret or p.decide_eq(p.ret, 0) is True or self.noop(p), w, 'a completion hands over to another step', p)
        chk.ob(rid, len(drops) == 1, fn, 'the completed state is released on some paths only')
        self.drop = drops.pop() if len(drops) == 1 else None

    def noop(self, p):
        v = p.res(p.ret)
        return issym(v) and (p.eng.bases[v[0]].kind == 'global' or any(e.k == 'call' and e.ret is not None and p.res(e.ret) == v and 'noop' in (e.sn or '').lower() for e in p.ev)) or 'noop' in p.fmt(p.ret)

    def setc(self, p, t, addr):
        a = p.res(addr)
        self.count = self.rel(p, t, a)

    def rel(self, p, t, a):
        if a[0] == t[0]:
            return None, a[1] - t[1]
        # through a pointer stored in the callback
        for k, v in p.st.user.items():
            if type(k) is tuple and k[0] == 'init' and k[1] == t[0]:
                x = p.res(v)
                if issym(x) and x[0] == a[0]:
                    return k[2] - t[1], a[1] - x[1]
        return None, None

    def last(self, chk, C, F, rid, p, t, after):
        s = setting(p, after)
        chk.ob(rid, s is not None, where(p), 'the last completion does not wake the waiter exactly once', p)
        if s is None:
            return
        lk, fl, nt, un = s
        m = p.res(lk.args[0])
        self.m = self.rel(p, t, m)
        chk.ob(rid, p.res(fl.addr) == (m[0], m[1] + F.d) and p.res(nt.args[0]) == (m[0], m[1] + F.cv), where(p, fl), 'the last completion sets a different event', p)
        late = touches(p, m[0], un.i)
        chk.ob(rid, not late, where(p, late[0]) if late else where(p), 'the waiter is touched after it may have returned', p)
        self.ok = True


def written(p, b, o):
    """the value last stored at (b, o) on this path, or what memory holds"""
    v = rd(p, p.st.mem, b, o)
    if v is None:
        for e in p.ev:
            if e.k == 'st' and p.res(e.addr) == (b, o):
                v = p.res(e.val)
    return v


def abs_addr(p, cb, rel):
    """absolute address of a location given relative to callback object cb"""
    if rel is None:
        return None
    k, o = rel
    if o is None:
        return None
    if k is None:
        return (cb[0], cb[1] + o)
    v = written(p, cb[0], cb[1] + k)
    return (v[0], v[1] + o) if v is not None and issym(v) else None


def slot_of(m, name):
    c = by_name(m).get('yaclib::detail::InlineCore')
    for i in range(16):
        if m.vslot(c, i) == name:
            return i
    raise AnalysisError('no virtual %s in InlineCore' % name)


def vfn(p, v, name):
    """the function in slot `name` of the vtable pointer v"""
    v = p.res(v) if v is not None else None
    if v is None or not issym(v) or p.eng.bases[v[0]].kind != 'global':
        return None
    x = p.eng.gload(p.eng.bases[v[0]].info, v[1] + 8 * slot_of(p.eng.m, name), 8)
    if x is None or not issym(x):
        return None
    n = p.eng.bases[x[0]].info
    return p.eng.m.aliases.get(n, n)


class Setters:
    def __init__(self, chk, C, F, rid, cls=Setter):
        self.a = (chk, C, F)
        self.rid = rid
        self.cls = cls
        self.memo = {}

    def of(self, p, cb):
        """what completing a future does with callback object cb (from its vtable)"""
        v = written(p, cb[0], cb[1])
        return self.by_vptr(p, v)

    def by_vptr(self, p, v):
        chk, C, F = self.a
        fns = [vfn(p, v, n) for n in ('Here', 'Next')]
        if fns[0] is None or fns[1] is None:
            return None
        out = []
        for fn in fns:
            if fn not in self.memo:
                self.memo[fn] = self.cls(chk, C, F, fn, self.rid)
            out.append(self.memo[fn])
        a, b = out
        chk.ob(self.rid, (a.count, a.m, a.drop) == (b.count, b.m, b.drop), fns[1], 'Here and Next of a completion callback do not do the same')
        return a


WAITS = {'w_wait1': ('u', 1), 'w_wait2': ('u', 2), 'w_wait3': ('u', 3), 'w_waits1': ('s', 1), 'w_waitus': ('us', 2), 'w_waitss': ('s', 2), 'w_waitsus': ('us', 3), 'w_waitn': ('u', None), 'w_waitit': ('u', None),
         'w_waitsn': ('s', None), 'w_for1': ('u', 1), 'w_for2': ('u', 2), 'w_for3': ('u', 3), 'w_forn': ('u', None), 'w_forit': ('u', None), 'w_until1': ('u', 1), 'w_until2': ('u', 2), 'w_untiln': ('u', None), 'w_untilit': ('u', None)}


def registrations(p, mine=lambda b: True):
    """{core base: (registered event or None, callback address, failed)} in order"""
    out = {}
    for e in p.ev:
        if e.k == 'call' and REG(e):
            b = base(p, e.args[0])
            cb = p.res(e.args[1])
            t = truth(p, e.ret)
            out.setdefault(b, []).append((e, cb, t))
        elif e.k in ('aload', 'ald', 'cas') and is_cb(p, e.addr):
            b = base(p, e.addr)
            if e.k == 'cas' and e.ok and type(p.res(e.des)) is not int:
                out.setdefault(b, []).append((e, p.res(e.des), 1))
            else:
                out.setdefault(b, [])
    return out


def resets(p):
    return [e for e in p.ev if e.k == 'cas' and e.ok and is_cb(p, e.addr) and p.res(e.des) == 0] + [e for e in p.ev if e.k in ('astore', 'ast') and is_cb(p, e.addr)]


def wait_rules(chk, C, pid, entries=WAITS):
    F = Flag(chk, C, pid)
    rc = chk.rule(pid + '.callback', 'a completion counts itself exactly once, wakes the waiter iff it is the last, and touches nothing of the waiter afterwards')
    S = Setters(chk, C, F, rc)
    rr = chk.rule(pid + '.register', 'Wait registers with every listed future at most once, with distinct list nodes, before it stops holding its own count')
    rn = chk.rule(pid + '.count', 'whenever Wait relies on the ready flag the remaining count equals the number of outstanding completions')
    re_ = chk.rule(pid + '.return', 'Wait returns only when no completion can still touch the waiter; true only if nothing was withdrawn, false only after the deadline')
    ri = chk.rule(pid + '.intact', 'Wait leaves the handles and the reference counts of the futures alone')
    for n, (kind, N) in entries.items():
        many = kind in ('s', 'us') and n != 'w_waits1'
        ps = C.paths(n, init=init_handles(), key='w', maxpaths=60000, **dict({'opaque': REG} if many else {}, **({'loop': 2} if n == 'w_for3' else {})))
        k = 0
        for p in ps:
            if p.end == 'cut':
                continue
            if p.end == 'terminate' and not any(e.k == 'cas' and e.ok or e.k == 'call' and REG(e) for e in p.ev):
                continue   # the callbacks of the shared futures cannot be allocated
            if p.end != 'ret':
                chk.ob(re_, False, where(p), 'waiting ends by %s' % p.end, p)
                continue
            k += 1
            if any(seen_result(p, base(p, e.addr), e.i) for e in resets(p)):
                continue   # a result that was seen present cannot be withdrawn
            wait_path(chk, C, F, S, p, n, kind, N, (rr, rn, re_, ri))
        chk.ob(re_, k >= 2, n, 'no path returns')


def wait_path(chk, C, F, S, p, n, kind, N, rules):
    rr, rn, re_, ri = rules
    regs = registrations(p)
    timed = n.startswith(('w_for', 'w_until'))
    done = []
    failed = 0
    nodes = {}
    for b, l in regs.items():
        ok = [x for x in l if x[2] == 1]
        chk.ob(rr, len(ok) <= 1, where(p), 'a future is registered %d times' % len(ok), p)
        if ok:
            done.append(ok[0])
        else:
            und = [x for x in l if x[2] is None]
            chk.ob(rr, not und, where(p), 'whether the registration succeeded is ignored', p)
            chk.ob(rr, any(x[2] == 0 for x in l) or bool(seen_result(p, b)), where(p), 'a future is neither registered nor seen ready with acquire', p)
            failed += 1
    total = len(regs)
    if N is not None:
        chk.ob(rr, total == N, where(p), '%d of %d futures are waited for' % (total, N), p)
    elif n.endswith('n'):
        cnt = p.res(p.args[-1])
        chk.ob(rr, cnt == total if type(cnt) is int else p.decide_eq(cnt, total) is True, where(p), 'the number of waited futures is not the count (%d waited)' % total, p)
    rs = resets(p)
    for e in rs:
        chk.ob(re_, e.k == 'cas', where(p, e), 'a callback is withdrawn by a plain store: a result published since the word was read is overwritten and lost', p)
    R = len(done)
    out = R - len(rs)
    ret = 1 if p.ret is None or not timed else truth(p, p.ret)
    # handles and references
    for b in regs:
        chk.ob(ri, not decs(p, b) and not incs(p, b), where(p), 'a waited future changes its reference count', p)
    for a in p.args:
        a = p.res(a)
        if issym(a):
            w = [e for e in p.ev if e.k == 'st' and base(p, e.addr) == a[0]]
            chk.ob(ri, not w, where(p, w[0]) if w else where(p), 'a waited future is changed', p)
    if not done:
        chk.ob(re_, ret == 1 and not rs, where(p), 'every future is ready and Wait does not report it', p)
        return
    # the callbacks lead to one event
    cs = []
    for e, cb, _ in done:
        s = S.of(p, cb) if issym(cb) else None
        chk.ob(rr, s is not None and s.drop == 0, where(p, e), 'the registered callback is not a waiting one', p)
        if s is None:
            return
        cs.append((abs_addr(p, cb, s.count), abs_addr(p, cb, s.m)))
    cnt, mu = cs[0]
    chk.ob(rr, all(x == cs[0] for x in cs) and mu is not None, where(p), 'the callbacks of one Wait lead to different events', p)
    if mu is None:
        return
    if kind != 'u':
        sh = [cb for e, cb, _ in done if e.k == 'call' and 'true' in (e.d.get('name') or '') or e.k == 'call' and 'ILb1E' in (e.d.get('name') or '')]
        chk.ob(rr, len(set(sh)) == len(sh), where(p), 'two shared futures get the same list node', p)
    flag, timeout, obs = F.scan(p, mu, n, p.args[0] if timed else None)
    ready = flag is not None and isset(p, flag.val)
    zero = False
    subs = []
    I = None
    if cnt is not None:
        first = min(e.i for e, _, _ in done)
        for e in p.ev:
            if e.k in ('st', 'ast', 'astore') and p.res(e.addr) == cnt:
                chk.ob(rn, e.i < first, where(p, e), 'the counter is overwritten after completions may count themselves', p)
                if e.i < first:
                    I = lin64(p, e.val)
            elif e.k == 'rmw' and p.res(e.addr) == cnt:
                chk.ob(rn, e.rmw in ('sub', 'add'), where(p, e), 'the counter is changed by %s' % e.rmw, p)
                d = lin64(p, e.val)
                subs.append((e, d if e.rmw == 'sub' else ladd((-1, d))))
                z = e.rmw == 'sub' and p.decide_eq(e.old, e.val)
                if z is True:
                    acq = has_acq(e.ord) or any(x.k == 'fence' and has_acq(x.ord) and x.i > e.i for x in p.ev)
                    chk.ob(rn, acq, where(p, e), 'the waiter takes the last count without acquire', p)
                    zero = True
        chk.ob(rn, I is not None, where(p), 'the counter has no initial value', p)
        if I is None:
            return

        def left(i):
            return const(ladd((1, I), *[(-1, d) for e, d in subs if e.i < i]))
        for j, (e, cb, _) in enumerate(sorted(done, key=lambda x: x[0].i)):
            l = left(e.i)
            chk.ob(rr, l is not None and l - (j + 1) >= 1, where(p, e), 'a completion could end the wait while futures are still being registered', p)
        for o in obs:
            l = left(o.i)
            q = R - len([x for x in rs if x.i < o.i])
            chk.ob(rn, l == q, where(p, o), 'the count is %s while %d completions are outstanding' % (l, q), p)
        if zero:
            e = [x for x in subs][-1][0]
            l = left(e.i + 1)
            q = R - len([x for x in rs if x.i < e.i])
            chk.ob(rn, l == q, where(p, e), 'the count is taken as zero with %s counted for %d outstanding completions' % (l, q), p)
    else:
        chk.ob(rn, R == 1, where(p), '%d completions set an event that does not count' % R, p)
    chk.ob(re_, ready or zero or out == 0, where(p), 'returns while %d completions may still touch the waiter' % out, p)
    if rs:
        chk.ob(re_, timed and timeout is not None and rs[0].i > timeout.i, where(p, rs[0]), 'a future is withdrawn before the deadline passed', p)
        for e in rs:
            chk.ob(re_, any(x[0].i < e.i and base(p, x[0].addr) == base(p, e.addr) for x in done if x[0].k == 'cas'), where(p, e), 'a future is withdrawn that was not registered', p)
    chk.ob(re_, ret is not None, where(p), 'the result does not depend on the outcome', p)
    if ret:
        chk.ob(re_, not rs, where(p), 'reports success although a future was withdrawn', p)
    elif ret == 0:
        chk.ob(re_, timeout is not None, where(p), 'reports a timeout before the deadline passed', p)
    for e in p.ev:
        if e.k == 'free' and base(p, e.obj) in [cb[0] for _, cb, _ in done]:
            chk.ob(re_, all(o.i < e.i for o in obs) and all(s.i < e.i for s, _ in subs), where(p, e), 'the callbacks are freed before the wait ended', p)


def c11(chk, tier):
    C = EvCtx(chk, 'event.cpp')
    wait_rules(chk, C, 'C11')


# ---------------------------------------------------------------- OneShotEvent and WaitGroup

class Oe:
    """roles: offset of the word, the idle and the set value"""

    def __init__(self, chk, C, r):
        self.done = self.off = self.empty = None
        for p in C.paths('oe_set'):
            a = base(p, p.args[0])
            for e in p.ev:
                if e.k == 'rmw' and e.rmw == 'xchg' and base(p, e.addr) == a and type(p.res(e.val)) is int:
                    self.done, self.off = p.res(e.val), p.res(e.addr)[1]
        if self.done is None:
            chk.ob(r, False, 'oe_set', 'Set does not exchange the waiter list for the set mark')
            raise AnalysisError('no set mark found in OneShotEvent::Set')
        for p in C.paths('oe_new'):
            v = rd(p, p.st.mem, base(p, p.args[0]), self.off)
            self.empty = v
            chk.ob(r, type(v) is int and v != self.done, where(p), 'the event starts set', p)
        for p in C.paths('oe_reset'):
            v = rd(p, p.st.mem, base(p, p.args[0]), self.off)
            w = writes(p, (base(p, p.args[0]), self.off))
            chk.ob(r, p.end == 'ret' and (v == self.empty or w and w[-1][2] == self.empty), where(p), 'Reset does not make the event idle', p)
        # WaitGroup
        self.whead = self.wcount = None
        for p in C.paths('wg_done'):
            a = base(p, p.args[0])
            for e in p.ev:
                if e.k == 'rmw' and base(p, e.addr) == a:
                    if e.rmw == 'xchg' and p.res(e.val) == self.done:
                        self.whead = p.res(e.addr)[1]
                    elif e.rmw in ('sub', 'add') and self.wcount is None:
                        self.wcount = p.res(e.addr)[1]
        chk.ob(r, self.whead is not None and self.wcount is not None, 'wg_done', 'Done never sets the event or never counts')
        if self.whead is None or self.wcount is None:
            raise AnalysisError('no counter or event found in WaitGroup::Done')


def sawset(p, head, O, upto=None):
    """an acquire observation that the event is set"""
    out = []
    for e in p.ev:
        if upto is not None and e.i >= upto:
            break
        if e.k in ('aload', 'ald') and loc_eq(p, e.addr, head) and has_acq(e.d.get('ord', '')) and p.decide_eq(e.val, O.done) is True:
            out.append(e)
        elif e.k == 'cas' and loc_eq(p, e.addr, head) and not e.ok and p.decide_eq(e.old, O.done) is True and has_acq(e.fo):
            out.append(e)
    return out


def adding(chk, r, p, head, O):
    """registrations on the event word: [(event, job)]; each one checked"""
    off = node_off(p.eng.m)
    out = []
    for e, old, new, order in writes(p, head):
        if e.k != 'cas' or not issym(new):
            chk.ob(r, False, where(p, e), 'the event word is overwritten', p)
            continue
        out.append((e, new))
        nx = [x for x in p.ev if x.i < e.i and x.k == 'st' and p.res(x.addr) == (new[0], new[1] + off)]
        want = p.res(e.old)
        got = p.res(nx[-1].val) if nx else None
        ok = got is not None and (got == want or issym(want) and issym(got) and got == (want[0], want[1] + off))
        chk.ob(r, ok, where(p, e), 'a registered waiter is not linked to the waiters it replaced', p)
        chk.ob(r, p.decide_eq(e.old, O.done) is False or type(want) is int and want != O.done, where(p, e), 'a waiter may be registered on a set event', p)
        chk.ob(r, has_rel(e.so), where(p, e), 'a waiter is registered without release', p)
    chk.ob(r, len(out) <= 1, where(p), 'a waiter is registered %d times' % len(out), p)
    return out


def releases(chk, r, p, e, what='Set'):
    """every job on the list taken by e is Called exactly once and not touched afterwards"""
    from rules_step import walk_list
    old = p.res(e.old)
    chk.ob(r, has_acq(e.ord), where(p, e), '%s takes the waiters without acquire' % what, p)
    chk.ob(r, has_rel(e.ord), where(p, e), '%s does not release what was done before it' % what, p)
    fs = [x for x in p.ev if x.k == 'vcall' and x.i > e.i and x.m in ('Call', 'Drop')]
    if old == 0 or p.decide_eq(old, 0) is True:
        chk.ob(r, not fs, where(p, e), 'a job is called although nobody waits', p)
        return
    jobs, complete = walk_list(p, old, e.i)
    if complete is None:
        return   # a link that is no address of a node
    got = [p.res(x.obj) for x in fs]
    want = [j for j, _ in jobs]
    chk.ob(r, complete is True and sorted(got) == sorted(want) and all(x.m == 'Call' for x in fs), where(p, e), 'not every waiter is called exactly once (%d of %d)' % (len(got), len(want)), p)
    for j, nx in jobs:
        c = [x for x in fs if p.res(x.obj) == j]
        if c:
            chk.ob(r, nx is None or nx.i < c[0].i, where(p, c[0]), 'the link of a waiter is read after it was called', p)
            t = [x for x in touches(p, j[0], c[0].i) if x.k != 'vcall' or p.res(x.obj) == j]
            chk.ob(r, not t, where(p, t[0]) if t else '', 'a waiter is touched after it was called', p)


class WgSetter(Setter):
    O = None
    R = None

    def last(self, chk, C, F, rid, p, t, after):
        O = WgSetter.O
        xs = [e for e in p.ev if e.k == 'rmw' and e.i > after and e.rmw == 'xchg' and p.res(e.val) == O.done]
        chk.ob(rid, len(xs) == 1, where(p), 'the last completion sets the event %d times' % len(xs), p)
        if len(xs) != 1:
            return
        self.m = self.rel(p, t, p.res(xs[0].addr))
        releases(chk, WgSetter.R, p, xs[0])
        late = touches(p, base(p, xs[0].addr), xs[0].i)
        chk.ob(rid, not late, where(p, late[0]) if late else where(p), 'the group is touched after its waiters were released', p)
        self.ok = True


def job_call(C, p, job, n='Call'):
    v = written(p, job[0], job[1])
    return vfn_job(p, v, n)


def vfn_job(p, v, name):
    m = p.eng.m
    v = p.res(v) if v is not None else None
    if v is None or not issym(v) or p.eng.bases[v[0]].kind != 'global':
        return None
    c = by_name(m).get('yaclib::Job')
    i = [k for k in range(12) if m.vslot(c, k) == name]
    x = p.eng.gload(p.eng.bases[v[0]].info, v[1] + 8 * i[0], 8) if i else None
    if x is None or not issym(x):
        return None
    return m.aliases.get(p.eng.bases[x[0]].info, p.eng.bases[x[0]].info)


def event_rules(chk, C, pid):
    r = chk.rule(pid + '.roles', 'construction and Reset make the event idle and the count what was asked for')
    O = Oe(chk, C, r)
    ra = chk.rule(pid + '.add', 'a waiter is linked in front of the waiting ones exactly once, or told that the event is set')
    rs = chk.rule(pid + '.set', 'setting takes all waiters at once and Calls each exactly once')
    ry = chk.rule(pid + '.ready', 'Ready() reports exactly whether the event is set, and acquires')
    for p in C.paths('oe_tryadd'):
        if p.end == 'cut':
            continue
        head = (base(p, p.args[0]), O.off)
        reg = adding(chk, ra, p, head, O)
        t = truth(p, p.ret)
        chk.ob(ra, p.end == 'ret' and t is not None, where(p), 'TryAdd does not tell whether the job was added', p)
        if t:
            chk.ob(ra, len(reg) == 1 and reg[0][1] == p.res(p.args[1]), where(p), 'TryAdd reports an addition that did not happen', p)
        else:
            chk.ob(ra, not reg and bool(sawset(p, head, O)), where(p), 'TryAdd refuses a job although the event is not set, or without acquiring what was published', p)
        if reg:
            j = p.res(p.args[1])
            lt = touches(p, j[0], reg[0][0].i)
            chk.ob(ra, not lt, where(p), 'a registered job is touched', p)
    for p in C.paths('oe_ready'):
        head = (base(p, p.args[0]), O.off)
        t = truth(p, p.ret)
        if t is None:
            ls = [e for e in p.ev if e.k in ('aload', 'ald') and loc_eq(p, e.addr, head)]
            v = p.res(p.ret)
            i = p.eng.bases[v[0]].info if issym(v) else None
            for _ in range(3):
                if i and i[0] in ('zext', 'trunc', 'and') and issym(p.res(i[1])):
                    i = p.eng.bases[p.res(i[1])[0]].info
            ok = i and i[0] == 'icmp' and i[1] == 'eq' and len(ls) == 1 and {p.res(i[2]), p.res(i[3])} == {p.res(ls[0].val), O.done}
            if i and i[0] == 'icmp' and i[1] == 'eq' and not ok and len(ls) == 1:
                ok = p.res(i[2])[0] == p.res(ls[0].val)[0] and (p.res(i[3]) + 0) & M64 == O.done if issym(p.res(i[2])) and type(p.res(i[3])) is int else False
            chk.ob(ry, ok and has_acq(ls[0].d.get('ord', '')), where(p), 'Ready() is not an acquire test for the set mark', p)
        else:
            chk.ob(ry, bool(sawset(p, head, O)) == bool(t), where(p), 'Ready() is wrong', p)
    for n in ('oe_set', 'oe_call'):
        for p in C.paths(n):
            if p.end == 'cut':
                continue
            head = (base(p, p.args[0]), O.off)
            w = writes(p, head)
            chk.ob(rs, p.end == 'ret' and len(w) == 1 and w[0][0].k == 'rmw' and w[0][2] == (O.done if n == 'oe_set' else O.empty), where(p), '%s does not take the waiters by one exchange' % n, p)
            if len(w) == 1 and w[0][0].k == 'rmw':
                releases(chk, rs, p, w[0][0])
                late = touches(p, head[0], w[0][0].i)
                chk.ob(rs, not late, where(p, late[0]) if late else '', 'the event is touched after its waiters were released', p)
    return O


def blocking_rules(chk, C, pid, O, F):
    rw = chk.rule(pid + '.wait', 'a thread that waits returns only after the event is set; true exactly then, false only after the deadline')
    rm = chk.rule(pid + '.waiter', 'the waiter outlives its wake-up, is woken exactly once, and a heap waiter is freed exactly once')
    # wake-ups
    for n in ('oe_waiter_call', 'oe_timed_call'):
        k = 0
        for p in C.paths(n):
            if p.end == 'cut':
                continue
            w = p.res(p.args[0])
            s = setting(p, 0)
            k += 1
            chk.ob(rm, p.end == 'ret' and s is not None, where(p), 'calling a waiter does not wake it', p)
            if s is None:
                continue
            chk.ob(rm, p.res(s[1].addr)[1] - p.res(s[0].args[0])[1] == F.d and p.res(s[2].args[0])[1] - p.res(s[0].args[0])[1] == F.cv, where(p), 'calling a waiter sets something else', p)
            if n == 'oe_waiter_call':
                lt = touches(p, w[0], s[3].i)
                chk.ob(rm, not lt, where(p, lt[0]) if lt else '', 'the waiter is touched after it was woken', p)
            else:
                d = [e for e in p.ev if e.k == 'vcall' and e.m == 'DecRef' and p.res(e.obj) == w]
                if d:
                    chk.ob(rm, len(d) == 1 and d[0].i > s[3].i, where(p, d[0]), 'the waiter gives up its reference %d times' % len(d), p)
                    lt = [e for e in touches(p, w[0], d[0].i)]
                    chk.ob(rm, not lt, where(p, lt[0]) if lt else '', 'the heap waiter is touched after its reference was given up', p)
                else:
                    heap_release(chk, rm, p, w, s[3].i)
        chk.ob(rm, k > 0, n, 'no path')
    for n in ('oe_wait', 'oe_for', 'oe_until', 'wg_wait', 'wg_for', 'wg_until'):
        timed = not n.endswith('wait')
        k = 0
        for p in C.paths(n, maxpaths=20000):
            if p.end == 'cut':
                continue
            if p.end != 'ret':
                chk.ob(rw, p.end in ('terminate', 'unwind', 'throw') and not any(e.k == 'cas' and e.ok for e in p.ev), where(p), 'waiting ends by %s' % p.end, p)
                continue
            k += 1
            head = (base(p, p.args[0]), O.off if n[0] == 'o' else O.whead)
            reg = adding(chk, rw, p, head, O)
            ret = 1 if not timed else truth(p, p.ret)
            if not reg:
                chk.ob(rw, bool(sawset(p, head, O)), where(p), 'returns although the event was not seen set', p)
                chk.ob(rw, ret == 1, where(p), 'reports a timeout although the event is set', p)
                fr = [e for e in p.ev if e.k == 'free']
                nw = [e for e in p.ev if e.k == 'new']
                chk.ob(rm, sorted(base(p, e.obj) for e in fr) == sorted(base(p, e.obj) for e in nw), where(p), 'the unused waiter is not freed exactly once', p)
                continue
            e, job = reg[0]
            fn = job_call(C, p, job)
            kind = p.eng.bases[job[0]].kind
            q = C.paths(fn, key='wcall') if fn else []
            ss = [setting(x, 0) for x in q if x.end == 'ret']
            chk.ob(rm, bool(ss) and None not in ss, where(p, e), 'calling the registered waiter does not wake it', p)
            if not ss or None in ss:
                continue
            x = [x for x in q if x.end == 'ret'][0]
            mo = p.res(x.res(ss[0][0].args[0]))[1] - x.res(x.args[0])[1]
            mu = (job[0], job[1] + mo)
            flag, timeout, obs = F.scan(p, mu, n, p.args[1] if timed else None)
            ready = flag is not None and isset(p, flag.val)
            if ret is None and timed and flag is not None and issym(p.res(p.ret)) and bit(p, p.ret, flag.val):
                ret = ready = 1
                if timeout is None:
                    ready = isset(p, flag.val)
            chk.ob(rw, ret is not None, where(p), 'the result of waiting is not the ready flag', p)
            if ret:
                chk.ob(rw, ready, where(p), 'returns although the waiter was not woken', p)
            elif ret == 0:
                chk.ob(rw, timeout is not None, where(p), 'reports a timeout before the deadline passed', p)
            xo = x.res(x.args[0])[0]
            own = any(x2.k == 'rmw' and base(x, x2.addr) == xo or x2.k == 'vcall' and x2.m == 'DecRef' and base(x, x2.obj) == xo for x2 in x.ev)
            if own and any(x2.k == 'vcall' and x2.m == 'DecRef' for x2 in x.ev):
                dn = vfn_job(p, written(p, job[0], job[1]), 'DecRef')
                chk.ob(rm, dn is not None, where(p, e), 'the heap waiter cannot be released', p)
                for y in C.paths(dn, key='wdec') if dn else []:
                    if y.end == 'ret':
                        heap_release(chk, rm, y, y.res(y.args[0]), -1)
            if kind == 'new':
                chk.ob(rm, own, where(p, e), 'the heap waiter is not released by its wake-up', p)
                i0 = max([o.i for o in obs] + [e.i])
                init = [z for z in p.ev if z.k in ('st', 'astore', 'ast') and z.i < e.i and base(p, z.addr) == job[0] and p.res(z.val) == 2]
                chk.ob(rm, bool(init), where(p), 'the heap waiter does not start with two references', p)
                heap_release(chk, rm, p, job, i0)
            else:
                chk.ob(rm, kind == 'alloca' and not own and ready, where(p, e), 'the waiter on the stack may be used after return', p)
        chk.ob(rw, k >= 2, n, 'no path returns')


def heap_release(chk, r, p, obj, since):
    """after event `since` the object gives up exactly one reference and is freed iff it was the last"""
    ds = [e for e in p.ev if e.k == 'rmw' and base(p, e.addr) == obj[0]]
    ok = len(ds) == 1 and ds[0].rmw == 'sub' and p.res(ds[0].val) == 1 and ds[0].i > since
    chk.ob(r, ok, where(p, ds[0]) if ds else where(p), 'the heap waiter gives up %d references' % len(ds), p)
    if not ok:
        return
    fr = [e for e in p.ev if (e.k == 'free' or e.k == 'vcall' and e.m in (None, '~del')) and base(p, e.obj) == obj[0]]
    z = p.decide_eq(ds[0].old, 1)
    chk.ob(r, z is not None and len(fr) == int(z), where(p, ds[0]), 'the heap waiter is freed %d times by its %s owner' % (len(fr), 'last' if z else 'first'), p)
    chk.ob(r, has_rel(ds[0].ord) and (not z or has_acq(ds[0].ord) or any(e.k == 'fence' and has_acq(e.ord) and e.i > ds[0].i for e in p.ev)), where(p, ds[0]), 'the references of the heap waiter are not ordered', p)
    lt = [e for e in touches(p, obj[0], ds[0].i)]
    chk.ob(r, z or not lt, where(p, lt[0]) if lt else '', 'the heap waiter is touched after its reference was given up', p)


AWAITS = {'oa_inline': 'inline', 'oa_sticky': 'sticky', 'oa_on': 'on', 'oa_op': 'inline', 'ga_inline': 'inline', 'ga_sticky': 'sticky', 'ga_on': 'on', 'ga_op': 'inline'}


def await_rules(chk, C, pid, O):
    r = chk.rule(pid + '.await', 'a coroutine continues at once only if the event is set; otherwise it is resumed exactly once, on the named executor, and left alone once registered')
    from rules_exe import loc_eq
    for n, kind in AWAITS.items():
        seen = set()
        for p in C.paths(n):
            if p.end == 'cut':
                continue
            head = (base(p, p.args[0]), O.off if n[0] == 'o' else O.whead)
            ex, h, frame = [p.res(a) for a in p.args[1:4]]
            prom = (h[0], 16)
            reg = adding(chk, r, p, head, O)
            t = truth(p, p.ret)
            subs = [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit']
            res = [e for e in p.ev if e.k == 'coro.resume' or e.k == 'vcall' and e.m in ('Call', 'Drop', 'Here', 'Next')]
            chk.ob(r, p.end == 'ret' and t is not None and not res, where(p), 'co_await ends by %s' % p.end, p)
            seen.add(t)
            if not t:
                chk.ob(r, kind != 'on' and not reg and not subs and bool(sawset(p, head, O)), where(p), 'the coroutine continues although the event was not seen set, or elsewhere', p)
                continue
            if not reg:
                ok = kind == 'on' and bool(sawset(p, head, O)) and len(subs) == 1 and p.res(subs[0].obj) == ex and p.res(subs[0].args[1]) == prom
                chk.ob(r, ok, where(p), 'the coroutine is suspended and nobody will resume it', p)
                if ok:
                    lt = [e for e in p.ev if e.i > subs[0].i and e.d.get('addr') is not None and base(p, e.addr) in (h[0], frame[0])]
                    chk.ob(r, not lt, where(p, lt[0]) if lt else '', 'the coroutine is touched after it was submitted', p)
                continue
            chk.ob(r, not subs, where(p), 'the coroutine is registered and submitted', p)
            e, job = reg[0]
            lt = [x for x in p.ev if x.i > e.i and (x.d.get('addr') is not None and base(p, x.addr) in (h[0], frame[0]) or x.k == 'vcall')]
            chk.ob(r, not lt, where(p, lt[0]) if lt else where(p), 'the coroutine is touched after it was registered', p)
            if kind == 'inline':
                chk.ob(r, job == prom, where(p, e), 'the registered job is not the coroutine', p)
                continue
            fn = job_call(C, p, job)
            chk.ob(r, fn is not None and job[0] == frame[0], where(p, e), 'the registered job is not the awaiter', p)
            if fn is None:
                continue
            for q in C.resume(p, fn, [job]):
                new = [x for x in q.ev if x.i >= len(p.ev)]
                ss = [x for x in new if x.k == 'vcall' and x.m == 'Submit']
                ok = q.end == 'ret' and len(ss) == 1 and q.res(ss[0].args[1]) == prom
                chk.ob(r, ok, where(q), 'waking the awaiter does not submit the coroutine exactly once', q)
                if not ok:
                    continue
                if kind == 'on':
                    chk.ob(r, q.res(ss[0].obj) == ex, where(q, ss[0]), 'the coroutine is not resumed on the named executor', q)
                else:
                    own = [x for x in q.ev if x.k == 'ld' and q.res(x.addr) == (h[0], 16 + 16) and q.res(x.val) == q.res(ss[0].obj)]
                    chk.ob(r, bool(own), where(q, ss[0]), 'the coroutine is not resumed on its own executor', q)
                lt = [x for x in new if x.i > ss[0].i and (x.d.get('addr') is not None and base(q, x.addr) in (h[0], frame[0]))]
                chk.ob(r, not lt, where(q), 'the coroutine is touched after it was submitted', q)
        chk.ob(r, seen >= ({1} if kind == 'on' else {0, 1}), n, 'not every outcome of co_await is possible')


INSERTS = {'wgc_1': (1, True, True), 'wgc_2': (2, True, True), 'wgc_n': (None, True, True), 'wgc_it': (None, True, True), 'wgcx_1': (1, True, False), 'wgcx_n': (None, True, False),
           'wga_1': (1, False, True), 'wga_2': (2, False, True), 'wga_n': (None, False, True), 'wga_it': (None, False, True), 'wgax_1': (1, False, False), 'wgax_n': (None, False, False)}


def sets_iff_zero(chk, r, rs, p, cnt, head, O):
    """every own decrement of the counter sets the event iff it reached zero"""
    subs = [e for e in p.ev if e.k == 'rmw' and p.res(e.addr) == cnt and (e.rmw == 'sub' or e.rmw == 'add' and type(p.res(e.val)) is int and p.res(e.val) >> 63)]
    xs = [e for e in p.ev if e.k == 'rmw' and p.res(e.addr) == head and e.rmw == 'xchg']
    zs = []
    for e in subs:
        z = p.decide_eq(e.old, e.val if e.rmw == 'sub' else -p.res(e.val) & M64)
        chk.ob(r, z is not None, where(p, e), 'whether the count reached zero is not decided', p)
        chk.ob(r, has_rel(e.ord), where(p, e), 'the count is decremented without release', p)
        if z:
            zs.append(e)
            chk.ob(r, has_acq(e.ord) or any(x.k == 'fence' and has_acq(x.ord) and x.i > e.i for x in p.ev), where(p, e), 'reaching zero does not acquire', p)
    chk.ob(r, len(xs) == len(zs) and len(zs) <= 1 and all(z.i < x.i for z, x in zip(zs, xs)), where(p), 'the event is set %d times while the count reaches zero %d times' % (len(xs), len(zs)), p)
    for x in xs:
        chk.ob(r, p.res(x.val) == O.done, where(p, x), 'reaching zero does not set the event', p)
        releases(chk, rs, p, x)
        lt = touches(p, head[0], x.i)
        chk.ob(r, not lt, where(p, lt[0]) if lt else '', 'the group is touched after its waiters were released', p)
    if subs and not zs:
        lt = touches(p, head[0], subs[-1].i)
        chk.ob(r, not lt, where(p, lt[0]) if lt else '', 'the group is touched after the count was given up', p)
    return subs


def group_rules(chk, C, pid, O):
    rc = chk.rule(pid + '.count', 'Add and Done change the count by what they are told; the event is set exactly when the count reaches zero')
    rs = chk.rule(pid + '.set', 'setting takes all waiters at once and Calls each exactly once')
    ri = chk.rule(pid + '.insert', 'every attached or consumed future is counted exactly once until it completes, and never uncounted early')
    ro = chk.rule(pid + '.own', 'attached futures are left to their owner; consumed ones are released exactly once')
    rcb = chk.rule(pid + '.callback', 'a completion counts itself exactly once, and a consumed one releases the completed state')
    rr = chk.rule(pid + '.roles', 'construction and Reset make the event idle and the count what was asked for')

    def loc(p):
        a = base(p, p.args[0])
        return (a, O.wcount), (a, O.whead)
    for n in ('wg_add', 'wg_add1'):
        for p in C.paths(n):
            cnt, head = loc(p)
            w = [e for e in p.ev if e.k in ('rmw', 'cas', 'astore', 'ast', 'st') and base(p, e.addr) == cnt[0]]
            want = p.res(p.args[1]) if n == 'wg_add' else 1
            chk.ob(rc, p.end == 'ret' and len(w) == 1 and w[0].k == 'rmw' and w[0].rmw == 'add' and p.res(w[0].val) == want and p.res(w[0].addr) == cnt, where(p), 'Add does not add what it is told', p)
    for n in ('wg_done', 'wg_done1'):
        for p in C.paths(n):
            if p.end == 'cut':
                continue
            cnt, head = loc(p)
            subs = sets_iff_zero(chk, rc, rs, p, cnt, head, O)
            want = p.res(p.args[1]) if n == 'wg_done' else 1
            chk.ob(rc, p.end == 'ret' and len(subs) == 1 and p.res(subs[0].val) == want, where(p), 'Done does not subtract what it is told', p)
    for p in C.paths('wg_count'):
        cnt, head = loc(p)
        ls = [e for e in p.ev if e.k in ('aload', 'ald') and loc_eq(p, e.addr, cnt)]
        chk.ob(rc, len(ls) == 1 and p.res(p.ret) == p.res(ls[0].val), where(p), 'Count() is not the count', p)
    for n in ('wg_new', 'wg_reset'):
        for p in C.paths(n):
            cnt, head = loc(p)
            for l, want, what in ((cnt, p.res(p.args[1]), 'count'), (head, O.empty, 'event')):
                ws = [p.res(e.val) for e in p.ev if e.k in ('st', 'ast', 'astore', 'rmw') and p.res(e.addr) == l]
                chk.ob(rr, p.end == 'ret' and ws and ws[-1] == want, where(p), 'the %s is not initialised' % what, p)
    # completion callbacks, found through the vtables of a constructed group
    WgSetter.O, WgSetter.R = O, rs
    S = Setters(chk, C, None, rcb, WgSetter)
    cbs = {}
    for p in C.paths('wg_new'):
        a = p.res(p.args[0])
        for o, (s, v) in p.st.mem.get(a[0], {}).items():
            if vfn(p, v, 'Here') is not None:
                cbs[o] = S.by_vptr(p, v)
    chk.ob(rcb, len(cbs) >= 2 and {c.drop for c in cbs.values()} == {0, 1}, 'wg_new', 'no attaching and no consuming callback found')
    for o, c in cbs.items():
        chk.ob(rcb, c.count == (None, O.wcount - o) and c.m == (None, O.whead - o), 'callback at %d' % o, 'the callback counts on something else than its group')
    for n, (N, consume, add) in INSERTS.items():
        k = 0
        for p in C.paths(n, init=init_handles(), key='w', maxpaths=20000):
            if p.end == 'cut':
                continue
            k += 1
            insert_path(chk, p, n, N, consume, add, loc(p), O, cbs, (rc, rs, ri, ro))
        chk.ob(ri, k >= 2, n, 'no path returns')


def insert_path(chk, p, n, N, consume, add, loc, O, cbs, rules):
    rc, rs, ri, ro = rules
    cnt, head = loc
    chk.ob(ri, p.end == 'ret', where(p), 'ends by %s' % p.end, p)
    regs = registrations(p)
    subs = sets_iff_zero(chk, rc, rs, p, cnt, head, O)
    adds = [e for e in p.ev if e.k == 'rmw' and p.res(e.addr) == cnt and e not in subs]
    chk.ob(ri, all(e.rmw == 'add' for e in adds) and not [e for e in p.ev if e.k in ('cas', 'astore', 'ast', 'st') and p.res(e.addr) == cnt], where(p), 'the count is overwritten', p)
    total = len(regs)
    if N is not None:
        chk.ob(ri, total == N, where(p), '%d of %d futures are inserted' % (total, N), p)
    elif n.endswith('n'):
        c = p.res(p.args[-1])
        chk.ob(ri, c == total if type(c) is int else p.decide_eq(c, total) is True, where(p), 'the number of inserted futures is not the count (%d inserted)' % total, p)
    done = []
    for b, l in regs.items():
        ok = [x for x in l if x[2] == 1]
        chk.ob(ri, len(ok) <= 1, where(p), 'a future is registered %d times' % len(ok), p)
        if ok:
            e, cb, _ = ok[0]
            done.append(e)
            c = cbs.get(cb[1]) if cb[0] == head[0] else None
            chk.ob(ro, c is not None and c.drop == int(consume), where(p, e), 'a %s future is registered with the wrong callback' % ('consumed' if consume else 'attached'), p)
            chk.ob(ro, not decs(p, b) and not incs(p, b), where(p, e), 'a registered future changes its references', p)
        else:
            chk.ob(ri, bool(seen_result(p, b)), where(p), 'a future is neither registered nor seen ready', p)
            chk.ob(ro, len(decs(p, b)) == int(consume) and not incs(p, b), where(p), 'a ready %s future is released %d times' % ('consumed' if consume else 'attached', len(decs(p, b))), p)
    A = ladd(*[(1, lin64(p, e.val)) for e in adds])
    Z = ladd(*[(1, lin64(p, e.val)) for e in subs])
    R = len(done)
    if add:
        chk.ob(ri, const(ladd((1, A), (-1, Z))) == R, where(p), 'the count changes by %s while %d futures are outstanding' % (const(ladd((1, A), (-1, Z))), R), p)
    else:
        chk.ob(ri, not adds and const(Z) == total - R, where(p), 'the count changes by -%s while %d of %d promised futures are complete' % (const(Z), total - R, total), p)
    evs = sorted(done + subs, key=lambda e: e.i)
    r = 0
    for e in evs:
        r += e in done
        if add:
            v = const(ladd(*[(1, lin64(p, x.val)) for x in adds if x.i < e.i], *[(-1, lin64(p, x.val)) for x in subs if x.i <= e.i]))
            chk.ob(ri, v is not None and v >= r, where(p, e), 'the count may reach zero while a future is outstanding', p)
    # handles
    slots = [e for e in p.ev if e.k == 'st' and base(p, e.addr) in [base(p, a) for a in p.args[1:]]]
    if consume:
        z = {p.res(e.addr) for e in slots if p.res(e.val) == 0}
        chk.ob(ro, len(z) == total and len(slots) == total, where(p), '%d of %d consumed futures give up their state' % (len(z), total), p)
    else:
        chk.ob(ro, not slots, where(p), 'an attached future is changed', p)


def node_off(m):
    from rules_step import node_off as f
    return f(m)


def c16(chk, tier):
    C = EvCtx(chk, 'event.cpp')
    F = Flag(chk, C, 'C16')
    O = event_rules(chk, C, 'C16')
    blocking_rules(chk, C, 'C16', O, F)
    await_rules(chk, C, 'C16', O)
    group_rules(chk, C, 'C16', O)
