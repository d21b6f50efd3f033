"""C15: coroutine SharedMutex on the mutex probe."""
from rules_mutex import *

SQ = lambda f: f.sn.startswith('yaclib::detail::List::') or f.sn.startswith('yaclib::detail::Stack::') or f.sn.startswith('yaclib::detail::Spinlock::')
M32 = (1 << 32) - 1


def qop(e):
    """operation on the readers queue"""
    if e.k == 'call' and e.sn and (e.sn.startswith('yaclib::detail::List::') or e.sn.startswith('yaclib::detail::Stack::')):
        return e.sn.split('::')[-1]
    return None


class Spin:
    def __init__(self, p):
        self.sec, self.bad, cur, n = {}, [], 0, 0
        for e in p.ev:
            if e.k == 'call' and (e.sn or '').startswith('yaclib::detail::Spinlock::'):
                if e.sn.endswith('::lock'):
                    if cur:
                        self.bad.append((e, 'the spinlock is locked twice'))
                    n += 1
                    cur = n
                elif e.sn.endswith('::unlock'):
                    if not cur:
                        self.bad.append((e, 'the spinlock is unlocked while not held'))
                    self.sec[e.i] = cur
                    cur = 0
                    continue
            self.sec[e.i] = cur
        self.end = cur


class Sm:
    """roles of the SharedMutex fields, recovered from what the operations do with them"""

    def __init__(self, C, cfg):
        self.C, self.cfg = C, cfg
        self.fifo = cfg[0] == '1'
        g = lambda n: [p for p in C.paths('sm%s_%s' % (cfg, n), opaque=SQ) if p.end == 'ret']
        self.state = self.wait = self.first = self.passes = self.size = self.tail = self.prio = self.head = self.queue = self.node = None
        for p in g('shared_ready'):
            for e in p.ev:
                if e.k == 'rmw':
                    self.state, self.reader = p.res(e.addr)[1], p.res(e.val)
        for p in g('lock_suspend'):
            m, c = base(p, p.args[0]), base(p, p.args[1])
            for e in p.ev:
                if e.k == 'rmw' and base(p, e.addr) == m and p.res(e.addr)[1] == self.state:
                    self.writer = p.res(e.val)
        for p in g('unlock_shared'):
            m = base(p, p.args[0])
            for e in p.ev:
                if e.k == 'rmw' and base(p, e.addr) == m and p.res(e.addr)[1] != self.state:
                    self.wait = p.res(e.addr)[1]
                if e.k == 'vcall' and e.m == 'Submit':
                    b = base(p, e.args[1])
                    for x in p.ev:
                        if x.k == 'ld' and base(p, x.addr) == m and base(p, x.val) == b:
                            self.first = p.res(x.addr)[1]
                            self.node = p.res(x.val)[1] - p.res(e.args[1])[1]
        for p in g('shared_suspend'):
            m = base(p, p.args[0])
            for e in p.ev:
                if e.k == 'st' and base(p, e.addr) == m:
                    v = p.res(e.val)
                    o = p.res(e.addr)[1]
                    d = (v[1] if issym(v) else v) & M32
                    if any(qop(x) == 'PushBack' for x in p.ev):
                        self.size = o
                    else:
                        self.passes = o
                if qop(e) == 'PushBack':
                    self.queue = p.res(e.args[0])[1]
        for p in g('lock_suspend'):
            m, c = base(p, p.args[0]), base(p, p.args[1])
            st = [e for e in p.ev if e.k == 'st' and base(p, e.addr) == m]
            mine = [e for e in st if base(p, e.val) == c and p.res(e.addr)[1] != self.first]
            if mine:
                self.tail = p.res(mine[0].addr)[1]
                for e in st:
                    if base(p, e.val) != c:
                        self.prio = p.res(e.addr)[1]
        for p in g('unlock'):
            m = base(p, p.args[0])
            for e in p.ev:
                if e.k == 'st' and base(p, e.addr) == m and p.res(e.addr)[1] == self.tail and base(p, e.val) == m:
                    self.head = p.res(e.val)[1]
        for n in ('state', 'wait', 'first', 'passes', 'size', 'tail', 'head', 'queue', 'node') + (('prio',) if self.fifo else ()):
            if getattr(self, n) is None:
                raise AnalysisError('SharedMutex<%s>: the role of "%s" was not recovered' % (cfg, n))


class SQy:
    """questions about a state value: 32 bit writers | 32 bit readers"""

    def __init__(self, X):
        self.X = X
        self.sh = X.writer.bit_length() - 1

    def hi(self, p, v):
        return p.eng.mkop(p.st, 'lshr', [p.res(v), self.sh], 64)

    def lo(self, p, v):
        return p.res(p.eng.mkop(p.st, 'trunc', [p.res(v)], 32)) if issym(p.res(v)) else p.res(v) & M32

    def nowriter(self, p, v):
        v = p.res(v)
        if type(v) is int:
            return v < self.X.writer
        r = p.decide_eq(self.hi(p, v), 0)
        if r is None:
            r = p.eng.cmp(p.st, 'ult', v, self.X.writer, 64)
        if r is None:
            r = p.decide_eq(p.eng.mkop(p.st, 'trunc', [self.hi(p, v)], 32), 0)
        return r

    def writers_is(self, p, v, n):
        v = p.res(v)
        if type(v) is int:
            return v >> self.sh == n
        r = p.decide_eq(self.hi(p, v), n)
        if r is None:
            r = p.decide_eq(p.eng.mkop(p.st, 'trunc', [self.hi(p, v)], 32), n, 32)
        return r


def lin(p, v, depth=0):
    """v as a sum of atoms: ({atom base: coefficient}, constant), modulo 2^32"""
    v = p.res(v)
    if type(v) is int:
        return {}, v & M32
    b = p.eng.bases[v[0]]
    if b.kind == 'op' and b.info[0] in ('add', 'sub') and depth < 8:
        a1, c1 = lin(p, b.info[1], depth + 1)
        a2, c2 = lin(p, b.info[2], depth + 1)
        s = 1 if b.info[0] == 'add' else -1
        d = dict(a1)
        for k, x in a2.items():
            d[k] = d.get(k, 0) + s * x
        return {k: x for k, x in d.items() if x}, (c1 + s * c2 + v[1]) & M32
    return {v[0]: 1}, v[1] & M32


def lsum(*ts):
    d, c = {}, 0
    for s, (a, k) in ts:
        for x, n in a.items():
            d[x] = d.get(x, 0) + s * n
        c += s * k
    return {x: n for x, n in d.items() if n}, c & M32


def leq(a, b):
    return lsum((1, a), (-1, b)) == ({}, 0)


def shared_rules(chk, C, pid, cfgs=CFG):
    txt = {'try': 'Try* succeeds only on a compatible state, by one acquiring update, and changes nothing when it fails',
           'reader': 'a reader enters without writers, consumes one pass credit, or is queued and counted exactly once',
           'writer': 'a writer counts itself, enters a free lock, waits for exactly the active readers, or joins the tail of the writer list',
           'runlock': 'a leaving reader uncounts itself and resumes the waiting writer iff it was the last active reader',
           'wunlock': 'a leaving writer uncounts itself and lets in exactly one of: the next writer, all queued readers, nobody',
           'choice': 'the choice follows the arrival order options and passes credit to every reader counted but not queued',
           'list': 'the writer list loses nobody, its tail is always right', 'lock': 'the bookkeeping is accessed only under the spinlock; nobody is resumed under it',
           'exec': 'coroutines are resumed by their own executor and not used afterwards', 'hb': 'entering acquires, leaving releases', 'spin': 'the spinlock excludes'}
    R = {k: chk.rule('%s.%s' % (pid, k), t) for k, t in txt.items()}

    def ob(k, ok, w, msg='', p=None):
        return chk.ob(R[k], ok, w, msg, p)

    def each(X, n, k):
        for p in C.paths('sm%s_%s' % (X.cfg, n), opaque=SQ):
            if p.end == 'cut':
                continue
            if p.end != 'ret':
                ob(k, False, where(p), 'ends by %s' % p.end, p)
                continue
            S = Spin(p)
            m = base(p, p.args[0])
            for e, msg in S.bad:
                ob('lock', False, where(p, e), msg, p)
            ob('lock', S.end == 0, where(p), 'returns with the spinlock held', p)
            guarded = {X.passes, X.size, X.tail, X.head, X.prio, X.queue}
            for e in p.ev:
                if e.k in ('ld', 'st') and base(p, e.addr) == m and p.res(e.addr)[1] in guarded or qop(e) and p.res(e.args[0]) == (m, X.queue):
                    ob('lock', S.sec[e.i] != 0, where(p, e), 'bookkeeping of the mutex used without its spinlock', p)
                if e.k == 'st' and base(p, e.addr) == m and p.res(e.addr)[1] == X.first:
                    ob('lock', S.sec[e.i] != 0, where(p, e), 'bookkeeping of the mutex used without its spinlock', p)
                if e.k == 'vcall' and e.m == 'Submit':
                    b = base(p, e.args[1])
                    ob('lock', S.sec[e.i] == 0, where(p, e), 'a coroutine is resumed under the spinlock', p)
                    ob('exec', queued_into(p, e, b), where(p, e), 'the coroutine is not resumed by its own executor', p)
                    t = touches(p, b, e.i)
                    ob('exec', not t, where(p, t[0] if t else e), 'a resumed coroutine is used afterwards', p)
            yield p, m, S

    def val(p, a):
        m = p.st.mem.get(a[0], {}).get(a[1])
        return p.res(m[1]) if m else None

    def rmws(p, a):
        return [e for e in p.ev if e.k == 'rmw' and loc_eq(p, e.addr, a)]

    def delta(p, e):
        v = p.res(e.val)
        if e.rmw == 'add':
            return v
        if e.rmw == 'sub':
            return -v if type(v) is int else None
        return None

    def stores(p, a):
        return [e for e in p.ev if e.k == 'st' and loc_eq(p, e.addr, a)]

    def initial(p, a):
        l = loads(p, a)
        s = stores(p, a)
        return p.res(l[0].val) if l and not (s and s[0].i < l[0].i) else None

    for c in cfgs:
        X = Sm(C, c)
        Q = SQy(X)
        # construction
        for p in C.paths('sm%s_make' % c):
            m = base(p, p.args[0])
            z = [val(p, (m, o)) for o in (X.state, X.wait, X.passes, X.size)] + ([val(p, (m, X.prio))] if X.fifo else [])
            ok = p.end == 'ret' and all(x == 0 for x in z) and val(p, (m, X.tail)) == (m, X.head) and val(p, (m, X.head)) == 0
            ob('list', ok, where(p), 'a new mutex is not free and empty', p)
        # try
        for n, inc in (('trylock', X.writer), ('lock_ready', X.writer), ('trylock_shared', X.reader), ('tryguard', X.writer), ('tryguard_shared', X.reader)):
            for p, m, S in each(X, n, 'try'):
                guard = n.startswith('tryguard')
                for q, v in ([(p, bit0(p, state_of(p, base(p, p.args[1]))) if owns_arg(p, state_of(p, base(p, p.args[1])), p.args[0]) is None else owns_arg(p, state_of(p, base(p, p.args[1])), p.args[0]))] if guard else split_ret(p)):
                    ws = writes(q, (m, X.state))
                    ob('try', len(ws) == (1 if v else 0), where(p), 'a %s attempt writes the state %d times' % ('successful' if v else 'failed', len(ws)), q)
                    for e, old, new, order in ws:
                        if not v:
                            break
                        if inc == X.writer:
                            ok = e.k == 'cas' and old == 0 and new == inc
                        else:
                            ok = e.k == 'cas' and Q.nowriter(q, old) is True and leq64(q, new, old, inc)
                        ob('try', ok, where(p, e), 'the lock is taken in an incompatible state', q)
                        ob('hb', has_acq(order), where(p, e), 'entering does not acquire', q)
        # reader fast path
        for p, m, S in each(X, 'shared_ready', 'reader'):
            rs = rmws(p, (m, X.state))
            ob('reader', len(rs) == 1 and len(writes(p, (m, X.state))) == 1 and delta(p, rs[0]) == X.reader, where(p), 'a reader does not count itself exactly once', p)
            for e in rs:
                ob('hb', has_acq(e.ord), where(p, e), 'entering does not acquire', p)
                for q, v in split_ret(p):
                    ob('reader', Q.nowriter(q, e.old) is bool(v), where(p, e), 'a reader %s although there are %swriters' % ('enters' if v else 'waits', '' if v else 'no '), q)
        # reader slow path
        for p, m, S in each(X, 'shared_suspend', 'reader'):
            curr = base(p, p.args[1])
            push = [e for e in p.ev if qop(e) in ('PushBack', 'PushFront') and base(p, e.args[1]) == curr]
            oth = [e for e in p.ev if qop(e) and e not in push and qop(e) != 'Empty']
            p0, s0 = initial(p, (m, X.passes)), initial(p, (m, X.size))
            ob('reader', not oth and not writes(p, (m, X.state)) and not grants(p), where(p), 'a waiting reader does more than queue itself or take a pass', p)
            for q, v in split_ret(p):
                if v:
                    fs = val(q, (m, X.size))
                    ok = len(push) == 1 and qop(push[0]) == 'PushBack' and p.res(push[0].args[0]) == (m, X.queue) and s0 is not None and fs is not None and leq(lin(q, fs), lsum((1, lin(q, s0)), (1, ({}, 1))))
                    ob('reader', ok, where(p), 'a suspended reader is not queued and counted exactly once', q)
                    ob('reader', p0 is not None and q.decide_eq(p0, 0, 32) is True and not stores(q, (m, X.passes)), where(p), 'a reader with a pass credit is queued', q)
                    if push:
                        un = [e for e in p.ev if e.k == 'call' and (e.sn or '').endswith('Spinlock::unlock')]
                        t = touches(p, curr, un[0].i) if un else []
                        ob('exec', not t, where(p, push[0]), 'a queued reader is used after the spinlock was released', q)
                else:
                    fp = val(q, (m, X.passes))
                    ok = not push and p0 is not None and q.decide_eq(p0, 0, 32) is False and fp is not None and leq(lin(q, fp), lsum((1, lin(q, p0)), (-1, ({}, 1)))) and not stores(q, (m, X.size))
                    ob('reader', ok, where(p), 'a reader enters without consuming exactly one pass credit', q)
        # writer slow path
        for p, m, S in each(X, 'lock_suspend', 'writer'):
            curr = base(p, p.args[1])
            nodea = (curr, None)
            rs = rmws(p, (m, X.state))
            ob('writer', len(rs) == 1 and len(writes(p, (m, X.state))) == 1 and delta(p, rs[0]) == X.writer and S.sec[rs[0].i] != 0, where(p), 'a writer does not count itself exactly once under the spinlock', p)
            if len(rs) != 1:
                continue
            s = rs[0]
            ob('hb', has_acq(s.ord), where(p, s), 'entering does not acquire', p)
            nw = Q.nowriter(p, s.old)
            ob('writer', nw is not None, where(p, s), 'the number of other writers is ignored', p)
            ww = rmws(p, (m, X.wait))
            fst = stores(p, (m, X.first))
            for q, v in split_ret(p):
                if nw:
                    ob('writer', fst and base(q, fst[-1].val) == curr and not [e for e in stores(p, (m, X.tail))], where(p), 'the first writer does not announce itself as the one to resume', q)
                    r = Q.lo(q, s.old)
                    rz = q.decide_eq(r, 0, 32)
                    ok = len(ww) <= 1 and all(e.rmw == 'add' and leq(lin(q, e.val), lin(q, r)) for e in ww) and (len(ww) == 1 or rz is True)
                    ob('writer', ok, where(p), 'the first writer does not wait for exactly the active readers', q)
                    for e in ww:
                        ob('writer', not fst or fst[0].i < e.i, where(p, e), 'the last reader may look for the writer before it announced itself', q)
                        ob('hb', has_acq(e.ord) and has_rel(e.ord), where(p, e), 'counting the readers does not synchronize with their leaving', q)
                        gone = lsum((1, lin(q, e.old)), (1, lin(q, r))) == ({}, 0)
                        dec = q.eng.cmp(q.st, 'eq', e.old, q.eng.mkop(q.st, 'sub', [0, r], 32), 32)
                        if dec is None:
                            dec = q.decide_eq(q.eng.mkop(q.st, 'add', [e.old, r], 32), 0, 32)
                        gone = True if gone else dec
                        if rz is True:
                            gone = True
                        ob('writer', gone is not None and gone == (not v), where(p, e), 'a writer %s although %s' % (('waits', 'all readers left') if v else ('enters', 'readers are active')), q)
                    if not ww:
                        ob('writer', not v, where(p), 'a writer waits although the lock is free', q)
                else:
                    ob('writer', v == 1 and not ww and not fst, where(p), 'a writer enters although another writer holds or awaits the lock', q)
                    t0 = initial(q, (m, X.tail))
                    node = val(q, (m, X.tail))
                    ok = t0 is not None and issym(node) and node[0] == curr
                    ob('list', ok, where(p), 'a waiting writer does not become the tail of the writer list', q)
                    if ok:
                        link = val(q, t0)
                        ob('list', link == node and val(q, node) == 0, where(p), 'a waiting writer is not linked behind the previous tail', q)
                    if X.fifo:
                        em = [e for e in p.ev if qop(e) == 'Empty']
                        p0, p1 = initial(q, (m, X.prio)), val(q, (m, X.prio))
                        if not em:
                            ob('choice', False, where(p), 'the priority of the writer does not depend on the queued readers', q)
                            continue
                        for tr in (0, 1):
                            for s2 in q.eng.assume(q.st.fork(), em[0].ret, bool(tr)):
                                z = Path(q.eng, s2, q.end, q.ret)
                                pi = initial(z, (m, X.prio)) or (z.res(p0) if p0 is not None else None)
                                pf = z.res(p1) if p1 is not None else pi
                                okp = pi is None and pf is None and not tr or pi is not None and leq(linb(z, pf), lsum((1, linb(z, pi)), (1, ({}, tr))))
                                ob('choice', okp, where(p), 'the priority of a waiting writer is wrong when readers are %s' % ('not queued' if tr else 'queued'), q)
                    t = [e for e in touches(p, curr, max([e.i for e in p.ev if e.k == 'call' and (e.sn or '').endswith('Spinlock::unlock')], default=0))]
                    ob('exec', not t, where(p), 'a queued writer is used after the spinlock was released', q)
        # reader leaves
        for p, m, S in each(X, 'unlock_shared', 'runlock'):
            rs = rmws(p, (m, X.state))
            ob('runlock', len(rs) == 1 and len(writes(p, (m, X.state))) == 1 and delta(p, rs[0]) == -X.reader, where(p), 'a leaving reader does not uncount itself exactly once', p)
            if len(rs) != 1:
                continue
            s = rs[0]
            ob('hb', has_rel(s.ord), where(p, s), 'leaving does not release', p)
            nw = Q.nowriter(p, s.old)
            ww = rmws(p, (m, X.wait))
            gr = grants(p)
            ob('runlock', nw is not None and len(ww) == (0 if nw else 1) and all(delta(p, e) == -1 for e in ww), where(p), 'a leaving reader reports to the waiting writer %d times (writers: %s)' % (len(ww), 'none' if nw else 'present'), p)
            last = [e for e in ww if p.decide_eq(e.old, 1, 32) is True]
            for e in ww:
                ob('hb', has_rel(e.ord) and has_acq(e.ord), where(p, e), 'leaving does not synchronize with the waiting writer', p)
                ob('runlock', p.decide_eq(e.old, 1, 32) is not None, where(p, e), 'it is not decided whether this was the last active reader', p)
            ob('runlock', len(gr) == len(last), where(p), '%d writers resumed by %s' % (len(gr), 'the last reader' if last else 'a reader that is not the last'), p)
            for e, b, how in gr:
                l = [x for x in loads(p, (m, X.first)) if base(p, x.val) == b]
                ob('runlock', l and l[0].i > ww[0].i if ww else False, where(p, e), 'the resumed writer is not the waiting one', p)
            ob('runlock', not [e for e in p.ev if e.k == 'st' and base(p, e.addr) == m], where(p), 'a leaving reader changes the bookkeeping', p)
        # writer leaves
        for p, m, S in each(X, 'unlock', 'wunlock'):
            ws = writes(p, (m, X.state))
            ob('wunlock', len(ws) == 1, where(p), 'a leaving writer updates the state %d times' % len(ws), p)
            if len(ws) != 1:
                continue
            e, old, new, order = ws[0]
            ob('hb', has_rel(order), where(p, e), 'leaving does not release', p)
            gr = grants(p)
            if e.k == 'cas':
                ob('wunlock', old == X.writer and new == 0 and not gr, where(p, e), 'the fast release applies although others are counted', p)
                ob('wunlock', not [x for x in touches(p, m, e.i)], where(p, e), 'the mutex is used after the fast release', p)
                continue
            ob('wunlock', e.k == 'rmw' and delta(p, e) == -X.writer and S.sec[e.i] != 0, where(p, e), 'a leaving writer does not uncount itself exactly once under the spinlock', p)
            alone = Q.writers_is(p, old, 1)
            emp = [x for x in p.ev if qop(x) == 'Empty' and p.res(x.args[0]) == (m, X.queue)]
            ed = [p.decide_eq(x.ret, 0) for x in emp]
            readers = False if False in ed else True if True in ed else None    # queued readers present?
            prio0 = initial(p, (m, X.prio)) if X.fifo else None
            pz = p.decide_eq(prio0, 0, 32) if prio0 is not None else None
            pops = [x for x in p.ev if qop(x) == 'PopFront']
            popb = [base(p, x.ret) for x in pops]
            wgr = [g for g in gr if g[1] not in popb]
            rgr = [g for g in gr if g[1] in popb]
            ob('wunlock', all(h == 'submit' for _, _, h in gr) and sorted(b for _, b, _ in rgr) == sorted(popb), where(p), 'a dequeued reader is not resumed exactly once', p)
            h0 = initial(p, (m, X.head))
            ps0, sz0 = initial(p, (m, X.passes)), initial(p, (m, X.size))
            pst = stores(p, (m, X.passes))

            def popped():
                """the first writer was unlinked correctly; returns its node"""
                if h0 is None or not issym(h0):
                    return None
                nx = next((p.res(l.val) for l in loads(p, h0)), None)
                hf, tf = val(p, (m, X.head)), val(p, (m, X.tail))
                if nx is None or hf is None:
                    return None
                nz = p.decide_eq(nx, 0)
                ok = p.decide_eq(hf, nx) is True and (nz is False and not stores(p, (m, X.tail)) or nz is True and tf == (m, X.head))
                ob('list', ok, where(p), 'taking the first waiting writer breaks the writer list', p)
                return h0

            def passed():
                """credit for the readers counted but not queued"""
                if not pst:
                    return False
                want = lsum((1, lin(p, ps0)) if ps0 is not None else (1, ({}, 0)), (1, lin(p, Q.lo(p, old))), *([(-1, lin(p, sz0))] if sz0 is not None else []))
                want2 = lsum((1, lin(p, ps0)) if ps0 is not None else (1, ({}, 0)), (1, lin(p, Q.lo(p, old))))
                got = lin(p, val(p, (m, X.passes)))
                return leq(got, want) and (sz0 is not None or readers is False) or readers is False and leq(got, want2)

            if wgr:
                # the next writer is let in
                ob('wunlock', len(gr) == 1 and not pops, where(p), '%d coroutines are let in together with a writer' % (len(gr) - 1), p)
                n = popped()
                ob('wunlock', n is not None and wgr[0][1] == n[0], where(p, wgr[0][0]), 'the resumed writer is not the first waiting one', p)
                if X.fifo:
                    ob('choice', pz is False and val(p, (m, X.prio)) is not None and leq(lin(p, val(p, (m, X.prio))), lsum((1, lin(p, prio0)), (-1, ({}, 1)))), where(p), 'a writer overtakes queued readers, or its priority is not used up', p)
                else:
                    ob('choice', readers is False and alone is False, where(p), 'a writer is let in although readers are queued or no writer waits', p)
                ob('choice', not pst and not stores(p, (m, X.size)) and not writes(p, (m, X.wait)), where(p), 'letting a writer in changes the readers bookkeeping', p)
            elif pops or rgr:
                ob('choice', readers is True and (not X.fifo or pz is True), where(p), 'readers are let in although none is queued or a writer came first', p)
                mv = [x for x in p.ev if qop(x) in ('List', 'Stack') and len(x.args) > 1 and p.res(x.args[1]) == (m, X.queue)]
                src = p.res(mv[0].args[0]) if mv else (m, X.queue)
                ob('wunlock', all(p.res(x.args[0]) == src for x in pops) and emptied2(p, src), where(p), 'a queued reader may be left behind', p)
                ob('wunlock', bool(mv) and S.sec[mv[0].i] == S.sec[e.i], where(p), 'the queued readers are not taken under the spinlock', p)
                ob('wunlock', val(p, (m, X.size)) == 0, where(p), 'the number of queued readers is not reset', p)
                ob('choice', alone is not None, where(p), 'waiting writers are ignored when readers are let in', p)
                if alone is False:
                    ws_ = [x for x in p.ev if x.k in ('astore', 'ast', 'rmw') and loc_eq(p, x.addr, (m, X.wait))]
                    ok = len(ws_) == 1 and sz0 is not None and ws_[0].k != 'rmw' and leq(lin(p, ws_[0].val), lin(p, sz0)) or \
                        len(ws_) == 1 and ws_[0].k == 'rmw' and ws_[0].rmw in ('xchg', 'add') and sz0 is not None and leq(lin(p, ws_[0].val), lin(p, sz0))
                    ob('wunlock', ok and (not rgr or ws_[0].i < rgr[0][0].i), where(p), 'the next writer does not wait for exactly the readers let in', p)
                    n = popped()
                    f = val(p, (m, X.first))
                    fs = stores(p, (m, X.first))
                    ob('wunlock', n is not None and f == n and (not rgr or fs[-1].i < rgr[0][0].i), where(p), 'the next writer is not announced to the readers let in', p)
                    if X.fifo:
                        pv = val(p, (m, X.prio))
                        w = p.res(p.eng.mkop(p.st, 'trunc', [Q.hi(p, old)], 32))
                        ob('choice', pv is not None and (leq(lin(p, pv), lsum((1, lin(p, w)), (-1, ({}, 2)))) or leq(lin(p, pv), lsum((1, lin(p, Q.hi(p, old))), (-1, ({}, 2))))), where(p), 'the priority of the remaining writers is wrong', p)
                    ob('choice', not pst, where(p), 'pass credit is given although a writer waits', p)
                elif alone:
                    ob('choice', passed(), where(p), 'readers counted but not queued get no pass credit', p)
                    ob('list', not stores(p, (m, X.head)) and not stores(p, (m, X.tail)) and not stores(p, (m, X.first)), where(p), 'the writer list changes although no writer waits', p)
            else:
                ob('wunlock', readers is False and (pz is True if X.fifo else alone is True), where(p), 'nobody is let in although somebody waits', p)
                ob('choice', passed(), where(p), 'readers counted but not queued get no pass credit', p)
                ob('list', not stores(p, (m, X.head)) and not stores(p, (m, X.tail)), where(p), 'the writer list changes although nobody is let in', p)
            un = [x for x in p.ev if x.k == 'call' and (x.sn or '').endswith('Spinlock::unlock')]
            t = [x for x in touches(p, m, un[-1].i)] if un else []
            ob('exec', not t, where(p, t[0] if t else None), 'the mutex is used after its next holder may run', p)
        # guards of granted locks own them
        for n, k in (('guard', 0), ('guard_shared', 1)):
            for p, m, S in each(X, n, 'try'):
                v = state_of(p, base(p, p.args[2]))
                ob('try', owns_arg(p, v, p.args[0]) == 1, where(p), 'the guard of a granted lock does not own it', p)
                rs = rmws(p, (m, X.state))
                want = X.reader if k else X.writer
                tot = sum(delta(p, e) or 0 for e in rs) + sum(X.writer for w in writes(p, (m, X.state)) if w[0].k == 'cas' and w[1] == 0 and w[2] == X.writer) + sum(X.reader for w in writes(p, (m, X.state)) if w[0].k == 'cas' and w[2] not in (X.writer,))
                ob('try', tot == want, where(p), 'a %s guard requests another kind of lock' % ('shared' if k else 'unique'), p)
    spin_rules(chk, C, R['spin'])


def linb(p, v):
    v = p.res(v)
    if issym(v):
        a, c = lin(p, v)
        out, cc = {}, c
        for k, n in a.items():
            d = p.eng.cmp(p.st, 'eq', (k, 0), 0, 1) if p.eng.bases[k].bits == 1 else None
            b = p.eng.bases[k]
            if b.kind == 'op' and b.info[0] == 'icmp':
                d = p.eng.cmp(p.st, b.info[1], p.res(b.info[2]), p.res(b.info[3]), b.info[4])
                if d is not None:
                    cc += n * int(d)
                    continue
            elif d is not None:
                cc += n * int(not d)
                continue
            out[k] = out.get(k, 0) + n
        return out, cc & M32
    return {}, v & M32


def leq64(p, new, old, inc):
    new, old = p.res(new), p.res(old)
    if type(new) is int and type(old) is int:
        return (new - old) & M64 == inc
    return issym(new) and issym(old) and new[0] == old[0] and (new[1] - old[1]) & M64 == inc


def emptied2(p, a):
    o = [e for e in p.ev if qop(e) == 'Empty' and p.res(e.args[0]) == a]
    return bool(o) and p.decide_eq(o[-1].ret, 0) is False


def spin_rules(chk, C, r):
    w = held = None
    for p in C.paths('spin_lock'):
        if p.end != 'ret':
            chk.ob(r, p.end == 'cut', where(p), 'lock ends by %s' % p.end, p)
            continue
        m = base(p, p.args[0])
        ws = [x for e in p.ev if e.k in ('rmw', 'cas') for x in [e] if base(p, e.addr) == m and (e.k == 'rmw' or e.ok)]
        last = ws[-1] if ws else None
        ok = last is not None and (last.k == 'cas' and p.res(last.old) == 0 or last.k == 'rmw' and last.rmw in ('xchg', 'or') and p.decide_eq(last.old, 0, 32) is True)
        chk.ob(r, ok and has_acq(last.so if last.k == 'cas' else last.ord), where(p), 'lock returns without having taken a free lock with acquire', p)
        if ok:
            w, held = p.res(last.addr)[1], p.res(last.des if last.k == 'cas' else last.val)
        for x in ws[:-1]:
            chk.ob(r, x.k == 'rmw' and p.decide_eq(x.old, 0, 32) is False, where(p, x), 'a free lock is taken and not returned', p)
    for p in C.paths('spin_unlock'):
        m = base(p, p.args[0])
        ws = [e for e in p.ev if e.k in ('astore', 'ast', 'rmw', 'cas', 'st')]
        ok = p.end == 'ret' and len(ws) == 1 and ws[0].k in ('astore', 'rmw') and p.res(ws[0].addr) == (m, w) and p.res(ws[0].val) == 0 and has_rel(ws[0].ord)
        chk.ob(r, ok and held not in (0, None), where(p), 'unlock does not free the lock with release', p)
    for p in C.paths('spin_make'):
        v = p.st.mem.get(base(p, p.args[0]), {}).get(w)
        chk.ob(r, v is not None and p.res(v[1]) == 0, where(p), 'a new spinlock is not free', p)


def stack_rules(chk, C, pid):
    r = chk.rule(pid + '.stack', 'the intrusive stack pops in reverse order, reports emptiness exactly and moves as a whole')
    for p in C.paths('stack_lifo'):
        a = {c: p.res(p.args[i]) for i, c in enumerate('abc')}
        out, em = base(p, p.args[3]), base(p, p.args[4])
        got = [p.res(p.st.mem[out][8 * i][1]) if 8 * i in p.st.mem.get(out, {}) else None for i in range(3)]
        ge = [p.res(p.st.mem[em][i][1]) if i in p.st.mem.get(em, {}) else None for i in range(4)]
        chk.ob(r, p.end == 'ret' and got == [a[c] for c in 'bca'], where(p), 'pops in a wrong order', p)
        chk.ob(r, [type(g) is int and g & 1 for g in ge] == [1, 0, 1, 1], where(p), 'Empty() answers %s' % ge, p)


def c15(chk, tier):
    C = XCtx(chk, 'mutex.cpp')
    shared_rules(chk, C, 'C15')
    guard_rules(chk, C, 'C15', kinds=('sug', 'ssg'))
    stack_rules(chk, C, 'C15')
    E = XCtx(chk, 'exe.cpp')
    list_rules(chk, E, 'C15')
