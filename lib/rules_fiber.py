"""C18: fiber replacements of the std locks, condition variables, threads and thread-local pointers."""
from common import *
from engine import *

TIMEOUT, READY = 0, 1      # recovered from the module by ws()
LOCKS = [('mutex', 'ex'), ('timed_mutex', 'ex'), ('recursive_mutex', 'rec'), ('recursive_timed_mutex', 'rec'), ('shared_mutex', 'sh'), ('shared_timed_mutex', 'sh')]
FREE = ('F',)
SCH = 'yaclib::fault::Scheduler::'
FQ = 'yaclib::detail::fiber::FiberQueue::'


def ev_call(self, st, fn, args, ins, v, **kw):
    d = {'sn': fn.sn, 'name': fn.name, 'args': [self.resolve(st, a) for a in args], 'ret': v, '_l': ins.get('l', 0)}
    d.update(kw)
    return self.event(st, 'call', d)


def m_rec(v=None):
    def m(self, st, f, ins, fn, args):
        ev_call(self, st, fn, args, ins, v)
        return self.finish_call(st, ins, v)
    return m


def m_now(self, st, f, ins, fn, args):
    v = self.sym('call', ('now', st.nev))
    ev_call(self, st, fn, args, ins, v)
    return self.finish_call(st, ins, v)


def m_id(self, st, f, ins, fn, args):
    return self.finish_call(st, ins, st.user.get('me', 1))


def m_bool(self, st, f, ins, fn, args):
    """a query with either answer"""
    s2 = st.fork()
    s2.forks += 1
    out = []
    for v, s in ((0, st), (1, s2)):
        ev_call(self, s, fn, args, ins, v)
        self.finish_call(s, ins, v)
        out.append(s)
    return out


def m_switch(self, st, f, ins, fn, args):
    raise AnalysisError('%s switches fibers outside of the wait queue (%s)' % (self.top(st).fn.sn, fn.sn))


def wait_deadline(self, st, fn, args):
    """(kind, value) of the deadline a Wait call was given"""
    if len(args) < 2 or 'NoTimeoutTag' in fn.name.split('4Wait')[-1]:
        return None
    a = self.resolve(st, args[1])
    if not issym(a):
        raise AnalysisError('deadline argument of FiberQueue::Wait not understood')
    return ('point' if 'time_point' in fn.name else 'duration', self.resolve(st, self.load(st, a, 8, 'i64', False)))


def mkey(st, b, skip=()):
    return tuple(sorted((o, s, v) for o, (s, v) in st.mem.get(b, {}).items()))


class Lock:
    """typestate closure of one lock type: every (memory, logical holders) pair reachable by two actors"""

    def __init__(self, chk, C, name, kind, maxn, waits):
        self.chk, self.C, self.name, self.kind, self.maxn, self.waits = chk, C, name, kind, maxn, waits
        self.states = {}     # (mem key, label) -> path
        self.waitq = {}      # mode -> {queue offset: event}
        self.released = []
        m = {'yaclib::InjectFault': m_rec(), SCH + 'GetId': m_id, SCH + 'GetTimeNs': m_now, SCH + 'GetScheduler': m_rec((0)),
             FQ + 'Wait': self.m_wait, FQ + 'NotifyOne': m_rec(), FQ + 'NotifyAll': m_rec(), FQ + 'Empty': m_bool,
             SCH + 'Suspend': m_switch, SCH + 'RescheduleCurrent': m_switch, SCH + 'Sleep': m_switch, SCH + 'SleepPreemptive': m_switch}
        self.opts = dict(models=m)

    # -- the environment: what other fibers may have done to the lock while this one was parked
    def m_wait(self, eng, st, f, ins, fn, args):
        n = st.user.get('waits', 0)
        dl = wait_deadline(eng, st, fn, args)

        q = eng.resolve(st, args[0])
        st.user['waits'] = n + 1
        same = mkey(st, self.b) == st.user['key']
        if n >= self.waits:
            ev_call(eng, st, fn, args, ins, None, wait=True, q=q, lab=st.user['lab'], same=same, dl=dl, status=None)
            return eng.end(st, 'cut')
        out = []
        lab0 = st.user['lab']
        for status in ((READY,) if dl is None else (READY, TIMEOUT)):
            for (k, lab), p in self.envstates(lab0):
                s = st.fork()
                s.forks += 1
                ev_call(eng, s, fn, args, ins, status, wait=True, q=q, lab=lab0, same=same, dl=dl, status=status)
                s.mem[self.b] = {o: (sz, v) for o, sz, v in k}
                s.own.add(self.b)
                s.user['key'], s.user['lab'], s.user['status'] = k, lab, status
                eng.finish_call(s, ins, status)
                out.append(s)
        return out

    def envstates(self, lab):
        """states other fibers can produce: this fiber holds nothing while it is parked"""
        return [(kl, p) for kl, p in self.states.items() if not self.holds(kl[1], 1)]

    def holds(self, lab, who):
        if lab[0] == 'X':
            return lab[1] == who
        if lab[0] == 'S':
            return lab[who] > 0
        return False

    # -- specification
    def compatible(self, lab, who, mode):
        if lab == FREE:
            return True
        if mode == 'X':
            return self.kind == 'rec' and lab[0] == 'X' and lab[1] == who
        return lab[0] == 'S'

    def acquired(self, lab, who, mode):
        if mode == 'X':
            return ('X', who, lab[2] + 1 if lab[0] == 'X' else 1)
        c = list(lab) if lab[0] == 'S' else ['S', 0, 0]
        c[who] += 1
        return tuple(c)

    def releasedlab(self, lab, who, mode):
        if mode == 'X':
            return FREE if lab[2] == 1 else ('X', who, lab[2] - 1)
        c = list(lab)
        c[who] -= 1
        return FREE if c[1] + c[2] == 0 else tuple(c)

    def legal(self, lab, who, mode, acquire):
        if acquire:
            if self.kind == 'rec':
                return not (lab[0] == 'X' and lab[1] == who and lab[2] >= self.maxn)
            if mode == 'S' and lab[0] == 'S':
                return lab[who] < (1 if who == 1 else self.maxn)
            return not self.holds(lab, who)
        if mode == 'X':
            return lab[0] == 'X' and lab[1] == who
        return lab[0] == 'S' and lab[who] > 0

    # -- exploration
    def call(self, kl, op, who, extra=()):
        p = self.states[kl]

        def init(eng, st, vals):
            st.user['me'], st.user['waits'], st.user['status'] = who, 0, None
            st.user['key'], st.user['lab'] = kl
        e = 'lk_%s_%s' % (self.name, op)
        if e not in self.C.m.fns:
            raise AnalysisError('no entry ' + e)
        return self.C.resume(p, e, [(self.b, 0)] + list(extra), init)

    def add(self, q, lab, work):
        k = (mkey(q.st, self.b), lab)
        if k not in self.states:
            if len(self.states) > 200:
                raise AnalysisError('%s: the lock state does not close' % self.name)
            self.states[k] = q
            work.append(k)

    def run(self):
        chk, name = self.chk, self.name
        ps = self.C.paths('lk_%s_make' % name, key=name, **self.opts)
        assert len(ps) == 1
        p0 = ps[0]
        self.eng = p0.eng
        self.b = p0.args[0][0]
        timed = 'lk_%s_try_lock_for' % name in self.C.m.fns
        modes = ['X', 'S'] if self.kind == 'sh' else ['X']
        sfx = {'X': '', 'S': '_shared'}
        work = []
        self.add(p0, FREE, work)
        done = -1
        while done != len(self.states):
            done = len(self.states)
            # non blocking operations to a fixpoint
            while work:
                kl = work.pop()
                lab = kl[1]
                for who in (1, 2):
                    for mode in modes:
                        if self.legal(lab, who, mode, True):
                            self.acquire(kl, 'try_lock' + sfx[mode], who, mode, 'try', work)
                        if self.legal(lab, who, mode, False):
                            self.release(kl, 'unlock' + sfx[mode], who, mode, work)
            # blocking operations of fiber 1 from every state, other fibers acting while it is parked
            for kl in list(self.states):
                for mode in modes:
                    if not self.legal(kl[1], 1, mode, True):
                        continue
                    self.acquire(kl, 'lock' + sfx[mode], 1, mode, 'lock', work)
                    if timed:
                        self.acquire(kl, 'try_lock%s_for' % sfx[mode], 1, mode, 'for', work)
                        self.acquire(kl, 'try_lock%s_until' % sfx[mode], 1, mode, 'until', work)
        # whoever may be parked is woken by the transition that makes the lock available
        for q, ev, lab0 in self.released:
            for mode in modes:
                if self.compatible(lab0, 3, mode):
                    continue
                for off, we in self.waitq.get(mode, {}).items():
                    woken = False
                    for e in ev:
                        if e.k != 'call' or not e.args or q.res(e.args[0]) != (self.b, off):
                            continue
                        if e.sn == FQ + 'NotifyAll' or (e.sn == FQ + 'NotifyOne' and mode == 'X' and off not in self.waitq.get('S', {})):
                            woken = True
                        if e.sn == FQ + 'Empty' and e.ret == 1:
                            woken = True
                    chk.ob('C18.lock.wake', woken, where(q), '%s: the lock became free but a fiber parked by %s (%s) is not woken' % (name, we.where(), {'X': 'exclusive', 'S': 'shared'}[mode]), q)
        for mode in modes:
            chk.ob('C18.lock.parks', bool(self.waitq.get(mode)), name, 'no blocking acquisition parks its fiber')

    def own(self, q):
        return q.ev[q.nprev:]

    def segment(self, q, ev):
        """no other fiber may run between the check of the lock state and its update"""
        last = max([e.i for e in ev if e.wait] or [-1])
        acc = [e.i for e in ev if e.i > last and e.k in ('ld', 'st') and base(q, e.addr) == self.b]
        if acc:
            for e in ev:
                if e.k == 'call' and e.sn == 'yaclib::InjectFault' and acc[0] < e.i < acc[-1]:
                    return False
        return True

    def acquire(self, kl, op, who, mode, form, work):
        chk, name = self.chk, self.name
        extra = []
        if form in ('for', 'until'):
            extra = [self.eng.sym('arg', 'deadline')]
        for q in self.call(kl, op, who, extra):
            ev = self.own(q)
            lab0 = kl[1]
            now = None
            for e in ev:
                if e.k == 'call' and e.sn == SCH + 'GetTimeNs' and now is None:
                    now = e.ret
                if not e.wait:
                    continue
                chk.ob('C18.lock.block', not self.compatible(e.lab, who, mode), where(q, e), '%s %s parks its fiber although the lock is available (%s)' % (name, op, e.lab[0]), q)
                chk.ob('C18.lock.block', e.same, where(q, e), '%s %s changed the lock before parking' % (name, op), q)
                chk.ob('C18.lock.block', form != 'try', where(q, e), '%s %s blocks' % (name, op), q)
                if issym(e.q) and e.q[0] == self.b:
                    self.waitq.setdefault(mode, {}).setdefault(e.q[1], e)
                else:
                    chk.ob('C18.lock.block', False, where(q, e), '%s %s parks its fiber on a queue that is not part of the lock' % (name, op), q)
                if form in ('for', 'until'):
                    ok = False
                    if e.dl:
                        want = extra[0]
                        if e.dl[0] == 'point' and form == 'for':
                            nows = [x.ret for x in ev if x.k == 'call' and x.sn == SCH + 'GetTimeNs' and x.i < e.i]
                            ok = any(sum_is(q, e.dl[1], n, want) for n in nows)
                        elif e.dl[0] == 'point' or form == 'for':
                            ok = q.decide_eq(e.dl[1], want) is True
                    chk.ob('C18.lock.deadline', ok, where(q, e), '%s %s does not wait until the requested deadline' % (name, op), q)
                else:
                    chk.ob('C18.lock.block', e.dl is None, where(q, e), '%s %s waits with a deadline' % (name, op), q)
            if q.end == 'cut':
                continue
            if q.end != 'ret':
                chk.ob('C18.lock.result', False, where(q), '%s %s ends with %s' % (name, op, q.end), q)
                continue
            lab = q.st.user['lab']
            status = q.st.user['status']
            r = True
            chk.ob('C18.lock.result', True, where(q), '', q)
            if form != 'lock':
                r = q.res(q.ret)
                if type(r) is not int:
                    chk.ob('C18.lock.result', False, where(q), '%s %s: result is not decided by the lock state' % (name, op), q)
                    continue
                r = bool(r & 1)
            comp = self.compatible(lab, who, mode)
            chk.ob('C18.lock.atomic', self.segment(q, ev), where(q), '%s %s lets other fibers run between checking and updating the lock' % (name, op), q)
            if r:
                chk.ob('C18.lock.exclusive', comp, where(q), '%s %s succeeds while the lock is held in an incompatible mode (%s)' % (name, op, lab[0]), q)
                if comp:
                    self.add(q, self.acquired(lab, who, mode), work)
            else:
                if form == 'try':
                    chk.ob('C18.lock.fail', not comp, where(q), '%s %s fails although the lock is available' % (name, op), q)
                else:
                    chk.ob('C18.lock.fail', status == TIMEOUT, where(q), '%s %s fails although its deadline has not passed' % (name, op), q)
                self.add(q, lab, work)

    def release(self, kl, op, who, mode, work):
        chk, name = self.chk, self.name
        for q in self.call(kl, op, who):
            ev = self.own(q)
            if q.end != 'ret':
                chk.ob('C18.lock.result', False, where(q), '%s %s ends with %s' % (name, op, q.end), q)
                continue
            chk.ob('C18.lock.block', not any(e.wait for e in ev), where(q), '%s %s blocks' % (name, op), q)
            chk.ob('C18.lock.atomic', self.segment(q, ev), where(q), '%s %s lets other fibers run between checking and updating the lock' % (name, op), q)
            lab = self.releasedlab(kl[1], who, mode)
            if lab == FREE:
                self.released.append((q, ev, kl[1]))
            self.add(q, lab, work)


def sum_is(p, v, a, b):
    """v == a + b on path p (addition of two unknowns is a hash-consed operation of the engine)"""
    v = p.res(v)
    if not issym(v):
        return False
    bo = p.eng.bases[v[0]]
    if bo.kind == 'op' and v[1] == 0 and bo.info[0] == 'add':
        return {p.res(bo.info[1]), p.res(bo.info[2])} == {p.res(a), p.res(b)}
    return False


def locks(chk, tier, C):
    chk.rule('C18.lock.exclusive', 'an acquisition that reports success was made when no incompatible holder existed, and the resulting state excludes incompatible holders')
    chk.rule('C18.lock.fail', 'a try acquisition fails only against an incompatible holder, a timed one only after its deadline')
    chk.rule('C18.lock.block', 'an acquisition parks its fiber only while the lock is incompatible, without touching the lock, on a queue of the lock')
    chk.rule('C18.lock.deadline', 'timed acquisitions wait until the requested virtual time')
    chk.rule('C18.lock.atomic', 'no fiber switch between checking and updating the lock state')
    chk.rule('C18.lock.wake', 'the release that frees the lock wakes every class of parked fibers')
    chk.rule('C18.lock.result', 'lock operations return normally with a result decided by the lock state')
    chk.rule('C18.lock.parks', 'blocking acquisitions park their fiber')
    maxn, waits = (2, 2) if tier == 'quick' else (3, 3)

    def one(t):
        name, kind = t
        Lock(chk, C, name, kind, maxn, waits).run()
    chk.parallel(LOCKS, one)


# ---------------------------------------------------------------- a small world: scheduler, one wait queue, a few fibers

def rd(eng, st, b, off):
    v = st.mem.get(b, {}).get(off)
    return eng.resolve(st, v[1]) if v else None


def wr(eng, st, b, off, v, size=8):
    eng.store(st, (b, off), size, v)


def m_rb_insert(self, st, f, ins, fn, args):
    """std::map linkage, without the (unobservable) rebalancing"""
    left, x, p, h = [self.resolve(st, a) for a in args]
    if type(left) is not int:
        raise AnalysisError('order of two wake-up times is not known')
    g = lambda n, o: rd(self, st, n[0], n[1] + o)
    s = lambda n, o, v: wr(self, st, n[0], n[1] + o, v)
    s(x, 8, p), s(x, 16, 0), s(x, 24, 0)
    if left & 1:
        s(p, 16, x)
        if p == h:
            s(h, 8, x), s(h, 24, x)
        elif p == g(h, 16):
            s(h, 16, x)
    else:
        s(p, 24, x)
        if p == g(h, 24):
            s(h, 24, x)
    return self.finish_call(st, ins)


def rb_order(self, st, n, out):
    if n == 0 or n is None:
        return
    if len(out) > 50:
        raise AnalysisError('malformed map')
    rb_order(self, st, rd(self, st, n[0], n[1] + 16), out)
    out.append(n)
    rb_order(self, st, rd(self, st, n[0], n[1] + 24), out)


def m_rb_erase(self, st, f, ins, fn, args):
    z, h = [self.resolve(st, a) for a in args[:2]]
    l = []
    rb_order(self, st, rd(self, st, h[0], h[1] + 8), l)
    if z not in l:
        raise AnalysisError('erase of a node that is not in the map')
    l.remove(z)
    for i, n in enumerate(l):
        wr(self, st, n[0], n[1] + 16, 0)
        wr(self, st, n[0], n[1] + 24, l[i + 1] if i + 1 < len(l) else 0)
        wr(self, st, n[0], n[1] + 8, l[i - 1] if i else h)
    wr(self, st, h[0], h[1] + 8, l[0] if l else 0)
    wr(self, st, h[0], h[1] + 16, l[0] if l else h)
    wr(self, st, h[0], h[1] + 24, l[-1] if l else h)
    return self.finish_call(st, ins, z)


def m_rb_next(step):
    def m(self, st, f, ins, fn, args):
        n = h = self.resolve(st, args[0])
        for _ in range(60):
            if self.bases[h[0]].kind != 'new':
                break
            h = rd(self, st, h[0], h[1] + 8)
            if not issym(h):
                raise AnalysisError('map node without a header')
        l = []
        rb_order(self, st, rd(self, st, h[0], h[1] + 8), l)
        l = [h] + l + [h]
        i = l.index(n) if n != h else (0 if step > 0 else len(l) - 1)
        return self.finish_call(st, ins, l[i + step])
    return m


def m_draw(self, st, f, ins, fn, args):
    v = st.user.get('draw', 0)
    ev_call(self, st, fn, args, ins, v)
    return self.finish_call(st, ins, v)


def m_leave(self, st, f, ins, fn, args):
    """the running fiber (or the loop) hands over to another context: its frames are kept to continue it later"""
    ev_call(self, st, fn, args, ins, None)
    st.user['swins'] = ins
    return self.end(st, 'switch')


FIB = 'yaclib::detail::fiber::'
WORLD = {FIB[:-7] + 'GetRandNumber': m_draw, FIB + 'ExecutionContext::SwitchTo': m_leave, FIB + 'ExecutionContext::Exit': m_leave, FIB + 'ExecutionContext::Start': m_rec(),
         'std::_Rb_tree_insert_and_rebalance': m_rb_insert, 'std::_Rb_tree_rebalance_for_erase': m_rb_erase, 'std::_Rb_tree_increment': m_rb_next(1), 'std::_Rb_tree_decrement': m_rb_next(-1),
         'yaclib::InjectFault': m_rec(), 'std::system_error::system_error': m_rec(), 'probe::Fn::operator()': lambda *a: m_fn(*a)}
T0, T1, T2 = 50, 100, 200
SLACK = 1000     # a timed wait may end later than its deadline, but not by more than the scheduling noise


class World:
    """abstract heap of a scheduler, a wait queue and a few fibers, built by the code under analysis itself"""

    def __init__(self, chk, C, nf):
        self.chk, self.C = chk, C
        p = C.paths('sch_make', key=('world', nf), models=WORLD)[0]
        self.eng, self.S = p.eng, p.args[0]
        self.Q = self.eng.sym('alloca', 'queue')
        self.F = [self.eng.sym('alloca', 'fiber%d' % i) for i in range(nf)]
        p = self.go(p, 'sch_set', self.S)
        p = self.go(p, 'cfg_pick', 3)
        p = self.go(p, 'cfg_tick', 10)
        p = self.go(p, 'q_make', self.Q)
        for f in self.F:
            p = [q for q in C.resume(p, 'fb_make', [f]) if q.end == 'ret'][0]
        self.p0 = p
        # fiber 0 becomes the running one
        q = self.one(C.resume(p, 'sch_schedule', [self.S, self.F[0]]), 'switch')
        self.loop = q
        self.cur = [b for b in q.st.mem if self.eng.bases[b].kind == 'global' and self.eng.resolve(q.st, q.st.mem[b].get(0, (0, 0))[1]) == self.F[0]]
        if len(self.cur) != 1:
            raise AnalysisError('the current fiber is not recorded in one place')
        self.cur = self.cur[0]
        self.start = q
        t = self.one(C.resume(q, 'sch_time', [self.S]))
        l = [e for e in t.ev[t.nprev:] if e.k == 'ld' and base(t, e.addr) == self.S[0]]
        self.toff = t.res(l[-1].addr)[1]
        # where the intrusive nodes live
        w = self.one(C.resume(q, 'q_wait', [self.Q]), 'switch')
        self.qhead, self.wnode = self.link(w, self.Q[0])
        y = self.one(C.resume(q, 'sch_yield', []), 'switch')
        self.rhead, self.snode = self.link(y, self.S[0])

    def link(self, p, hb):
        """(list head, node) linked by path p between object hb and fiber 0"""
        f = self.F[0][0]
        out = set()
        for o, (s, v) in p.st.mem[f].items():
            v = self.eng.resolve(p.st, v)
            if issym(v) and v[0] == hb:
                for o2, (s2, v2) in p.st.mem[hb].items():
                    v2 = self.eng.resolve(p.st, v2)
                    if issym(v2) and v2[0] == f:
                        out.add((v, v2))
        if len(out) != 1:
            raise AnalysisError('list linkage not recognised')
        return out.pop()

    def one(self, ps, end='ret'):
        ps = [p for p in ps if p.end != 'cut']
        if len(ps) != 1 or ps[0].end != end:
            raise AnalysisError('%s: expected one path ending in %s, got %s' % (ps[0].entry if ps else '?', end, [p.end for p in ps]))
        return ps[0]

    def go(self, p, e, *a):
        return self.one(self.C.resume(p, e, list(a)))

    def fn(self, sn):
        l = [f for f in self.C.m.fns.values() if f.sn == sn and f.blocks]
        if len(l) != 1:
            raise AnalysisError('%s not found' % sn)
        return l[0].name

    def setcur(self, p, f, running=True):
        """f is the running fiber"""
        st = p.st.fork()
        wr(self.eng, st, self.cur, 0, f)
        return self.path(p, st)

    def path(self, p, st):
        q = Path(self.eng, st, p.end, p.ret)
        q.entry, q.args = p.entry, p.args
        return q

    def settime(self, p, t):
        st = p.st.fork()
        wr(self.eng, st, self.S[0], self.toff, t)
        return self.path(p, st)

    def draw(self, p, d):
        st = p.st.fork()
        st.user['draw'] = d
        return self.path(p, st)

    def time(self, p):
        return rd(self.eng, p.st, self.S[0], self.toff)

    def cont(self, p, q):
        """the fiber that left at path p continues in the heap of path q"""
        st = q.st.fork()
        st.frames = list(p.st.frames)
        for fr in st.frames:
            fr.shared = True
        self.eng.event(st, 'phase', {'fn': p.entry, 'sn': 'continue', 'vals': ()})
        self.eng.finish_call(st, p.st.user['swins'])
        ps = self.eng.drain([st], p.st.frames[0].fn)
        for x in ps:
            x.entry, x.args, x.nprev = '%s > ... > continue' % p.entry, p.args, len(q.ev)
        self.C.account(self.eng, p.entry + ' continued', ps, 0)
        return ps

    def own(self, q):
        return q.ev[q.nprev:]

    # -- shape queries
    def ring(self, p, node):
        """the heads on the ring through node, or None when it is not linked; raises when the ring is broken"""
        st, eng = p.st, self.eng
        n = rd(eng, st, node[0], node[1] + 8)
        if n == 0 or n is None or n == node:
            return ()
        out, x, prev = [], node, None
        for _ in range(12):
            y = rd(eng, st, x[0], x[1] + 8)
            if not issym(y):
                return 'broken'
            if rd(eng, st, y[0], y[1]) != x:
                return 'broken'
            x = y
            if x == node:
                return tuple(out)
            out.append(x)
        return 'broken'

    def where(self, p, f):
        """(wait queue?, run queue?, wake-up time or None) of fiber f; 'broken' for a malformed list"""
        w = self.ring(p, (f[0], self.wnode[1]))
        s = self.ring(p, (f[0], self.snode[1]))
        if w == 'broken' or s == 'broken':
            return 'broken'
        fb = {x[0] for x in self.F} | set(self.extra(p))
        heads = [x for x in s if x[0] not in fb]
        inq = self.qhead in w
        if w and not inq:
            return 'lost'
        if not s:
            return (inq, False, None)
        if len(heads) != 1:
            return 'broken'
        if heads[0] == self.rhead:
            return (inq, True, None)
        h = heads[0]
        if h[0] in p.st.freed:
            return 'freed bucket'
        l = []
        k = None
        for nb in self.buckets(p):
            if nb[0] == h[0]:
                k = rd(self.eng, p.st, nb[0], nb[1] + 32)
        if type(k) is not int:
            return 'bucket outside of the sleep map'
        return (inq, False, k)

    def extra(self, p):
        return ()

    def buckets(self, p):
        """nodes of the sleep map"""
        l = []
        for o in range(0, 80, 8):
            r = rd(self.eng, p.st, self.S[0], o)
            if issym(r) and self.eng.bases[r[0]].kind == 'new' and rd(self.eng, p.st, r[0], r[1] + 8) is not None and \
                    self.eng.resolve(p.st, rd(self.eng, p.st, r[0], r[1] + 8)) == (self.S[0], o - 8):
                rb_order(self.eng, p.st, r, l)
                break
        return l

    def all(self, p):
        return [self.where(p, f) for f in self.F]

    def status(self, p, f):
        return rd(self.eng, p.st, f[0], self.stoff)

    # -- building placements with the code itself
    def place(self, p, f, kind):
        if kind == 'A':
            return p
        c = self.setcur(p, f)
        if kind == 'B':
            return self.one(self.C.resume(c, 'q_wait', [self.Q]), 'switch')
        if kind in ('C1', 'C2'):
            return self.one(self.C.resume(c, 'q_wait_until', [self.Q, T1 if kind == 'C1' else T2]), 'switch')
        if kind == 'E':
            q = self.one(self.C.resume(self.settime(c, 10), 'q_wait_until', [self.Q, T0]), 'switch')
            q = self.settime(q, T0 + 5)
            return self.go(q, self.fn(SCH + 'WakeUpNeeded'), self.S)
        if kind == 'H1' or kind == 'H2':
            return self.one(self.C.resume(c, 'sch_sleep', [self.S, T1 if kind == 'H1' else T2]), 'switch')
        if kind == 'D':
            return self.go(c, 'sch_schedule', self.S, f)
        if kind == 'G':
            return self.one(self.C.resume(c, 'sch_yield', []), 'switch')
        raise AnalysisError(kind)

    def build(self, kinds):
        """current fiber F[0]; fiber i+1 placed by kinds[i] (E first: it moves the clock)"""
        p = self.start
        for i, k in sorted(enumerate(kinds), key=lambda x: (x[1] != 'E', x[0])):
            p = self.place(p, self.F[i + 1], k)
        return self.setcur(p, self.F[0])


PLACE = {'A': (False, False, None), 'B': (True, False, None), 'C1': (True, False, T1), 'C2': (True, False, T2), 'D': (False, True, None),
         'E': (True, True, None), 'G': (False, True, None), 'H1': (False, False, T1), 'H2': (False, False, T2)}


def worlds(n, kinds):
    import itertools
    return [t for k in range(n + 1) for t in itertools.product(kinds, repeat=k)]


class Sched:
    """contracts of the wait queue and the scheduler over every placement of the other fibers"""

    def __init__(self, chk, W, kinds):
        self.chk, self.W, self.kinds = chk, W, kinds
        self.p = W.build(kinds)
        self.want = [(False, False, None)] + [PLACE[k] for k in kinds]
        got = self.look(self.p)
        self.ok = chk.ob('C18.sched.list', got == self.want, '/'.join(kinds) or 'empty', 'fibers are not where they were put: %s instead of %s' % (got, self.want), self.p)
        self.now = W.time(self.p)

    def look(self, p):
        return [self.W.where(p, f) for f in self.W.F[:len(self.kinds) + 1]]

    def call(self, fn, *a, p=None):
        return self.W.C.resume(p or self.p, fn, list(a))

    def check(self, rid, ok, q, msg):
        return self.chk.ob(rid, ok, q.entry.split(' > ')[-1], msg + (' [other fibers: %s]' % '/'.join(self.kinds) if not ok else ''), q)

    def shape(self, rid, q, want, msg):
        got = self.look(q)
        return self.check(rid, got == want, q, '%s: fibers are at %s, expected %s (queued, runnable, wake time)' % (msg, got, want) if got != want else '')

    def run(self):
        if not self.ok:
            return
        self.notify()
        self.wait()
        self.sleep()
        self.time()
        self.loop()

    def notify(self):
        W = self.W
        waiters = [i for i, w in enumerate(self.want) if w[0]]
        for d in range(6):
            for q in self.call('q_notify_one', W.Q, p=W.draw(self.p, d)):
                if not self.check('C18.queue.notify', q.end == 'ret', q, 'notify_one ends with %s' % q.end):
                    continue
                got = self.look(q)
                ch = [i for i in range(len(got)) if got[i] != self.want[i]]
                if not waiters:
                    self.shape('C18.queue.notify', q, self.want, 'notify_one without waiters')
                else:
                    ok = len(ch) <= 1 and all(i in waiters and got[i] == (False, True, None) for i in ch) and len(ch) == 1
                    self.check('C18.queue.notify', ok, q, '' if ok else 'notify_one must take exactly one waiter out of the queue and make it runnable: %s -> %s' % (self.want, got))
                self.erased(q)
        for q in self.call('q_notify_all', W.Q):
            if self.check('C18.queue.notify', q.end == 'ret', q, 'notify_all ends with %s' % q.end):
                self.shape('C18.queue.notify', q, [(False, True, None) if w[0] else w for w in self.want], 'notify_all')
        for q in self.call('q_empty', W.Q):
            v = q.res(q.ret)
            self.check('C18.queue.notify', type(v) is int and bool(v & 1) == (not waiters), q, 'Empty() does not tell whether fibers are parked')

    def erased(self, q):
        """a fiber may not be forgotten together with its wake-up entry"""
        for w in self.look(q):
            self.check('C18.sched.list', w not in ('broken', 'lost', 'freed bucket', 'bucket outside of the sleep map'), q, 'a fiber is on a %s list' % (w,))

    def wait(self):
        W = self.W
        for q in self.call('q_wait', W.Q):
            if self.check('C18.queue.wait', q.end == 'switch', q, 'an untimed wait does not park the fiber'):
                self.shape('C18.queue.wait', q, [(True, False, None)] + self.want[1:], 'untimed wait')
                n = self.pick(self.notified(q, 'q_notify_all'))
                for r in W.cont(q, n) if n else []:
                    self.check('C18.queue.wait', r.end == 'ret' and (r.res(r.ret) or 0) & 1 == 0, r, 'an untimed wait reports a timeout')
                    self.check('C18.queue.wait', self.look(r)[0] == (False, False, None), r, 'the fiber is still linked after its wait')
        for t in (-5, 5, self.now, self.now + 5, 70, T1, 150, T2):
            for e, arg in (('q_wait_until', t), ('q_wait_for', t - self.now)):
                for d in (0, 7):
                    self.timed(e, arg & M64, max(t, 0), d, True)

    def sleep(self):
        W = self.W
        for t in (-5, 5, self.now, self.now + 5, 70, T1, 150, T2):
            self.timed('sch_sleep_until', t & M64, max(t, 0), 0, False)
            self.timed('sch_sleep_for', (t - self.now) & M64, max(t, 0), 0, False)
        for q in self.call('sch_yield'):
            if self.check('C18.sched.yield', q.end == 'switch', q, 'yield does not let other fibers run'):
                self.shape('C18.sched.yield', q, [(False, True, None)] + self.want[1:], 'yield')

    def notified(self, q, fn):
        W = self.W
        n = W.C.resume(W.setcur(q, W.F[-1]), fn, [W.Q])
        return n[0] if len(n) == 1 and n[0].end == 'ret' else None

    def pick(self, q):
        """fiber 0 is taken out of the run queue the way the loop does it"""
        W = self.W
        if q is None:
            return None
        if self.look(q)[0][1:] != (True, None) and self.look(q)[0] != (False, True, None):
            self.check('C18.sched.wake', False, q, 'the fiber is not runnable: %s' % (self.look(q)[0],))
            return None
        for d in range(6):
            for r in W.C.resume(W.draw(q, d), W.fn(SCH + 'GetNext'), [W.S]):
                if r.end == 'ret' and r.res(r.ret) == r.res(W.F[0]):
                    return W.draw(W.setcur(r, W.F[0]), 0)
        raise AnalysisError('the loop never picks a runnable fiber')

    def timed(self, e, arg, t, d, queued):
        W = self.W
        rid = 'C18.queue.timed' if queued else 'C18.sched.sleep'
        args = [W.Q, arg] if queued else [arg]
        for q in self.call(e, *args, p=W.draw(self.p, d)):
            if q.end == 'ret':
                self.check(rid, t <= self.now, q, '%s until %d returns at %d' % (e, t, self.now))
                self.shape(rid, q, self.want, 'expired %s' % e)
                if queued:
                    self.check(rid, (q.res(q.ret) or 0) & 1 == 1, q, 'an expired wait does not report the timeout')
                continue
            if not self.check(rid, q.end == 'switch', q, '%s ends with %s' % (e, q.end)):
                continue
            got = self.look(q)
            k = got[0][2] if type(got[0]) is tuple else None
            ok = type(k) is int and got[0][0] == queued and t <= k <= max(t, self.now) + d + SLACK and got[1:] == self.want[1:]
            if not self.check(rid, ok, q, '' if ok else '%s until %d at %d parks the fiber as %s' % (e, t, self.now, got)):
                continue
            # not woken early
            if k > self.now:
                b = W.go(W.settime(q, k - 1), W.fn(SCH + 'WakeUpNeeded'), W.S)
                self.check('C18.sched.wake', self.look(b)[0] == (queued, False, k), b, 'a fiber sleeping until %d is woken at %d' % (k, k - 1))
            # time passes
            b = W.go(W.settime(q, k), W.fn(SCH + 'WakeUpNeeded'), W.S)
            ends = [(b, 1, 'deadline')]
            if queued:
                ends.append((self.notified(q, 'q_notify_all'), 0, 'notify'))
                ends.append((self.notified(b, 'q_notify_all'), 0, 'notify after the deadline'))
                n = self.notified(b, 'q_notify_all')
                # the queue moved on while the notified fiber was still runnable
                m = self.notified(q, 'q_notify_all')
                ends.append((self.notified(W.settime(q, k), 'q_notify_all'), 0, 'notify at the deadline'))
                if m:
                    ends.append((W.go(W.settime(m, k + 1), W.fn(SCH + 'WakeUpNeeded'), W.S), 0, 'notify, then the deadline passes'))
            for b, to, how in ends:
                if b is None:
                    self.check(rid, False, q, 'notification of a timed waiter does not return')
                    continue
                g = self.pick(b)
                if g is None:
                    continue
                before = self.look(g)
                for r in W.cont(q, g):
                    if not self.check(rid, r.end == 'ret', r, '%s ends with %s after %s' % (e, r.end, how)):
                        continue
                    if queued:
                        self.check(rid, (r.res(r.ret) or 0) & 1 == to, r, '%s reports %s after %s' % (e, 'no timeout' if to else 'a timeout', how))
                    after = self.look(r)
                    self.check(rid, after[0] == (False, False, None) and after[1:] == before[1:], r, '%s: lists after %s: %s, before %s' % (e, how, after, before) if after[1:] != before[1:] or after[0] != (False, False, None) else '')
                    keys = [rd(W.eng, r.st, n[0], n[1] + 32) for n in W.buckets(r)]
                    self.check(rid, k not in keys or any(type(w) is tuple and w[2] == k for w in after), r, 'an empty wake-up entry stays in the sleep map after %s' % how)

    def time(self):
        W = self.W
        wk = W.fn(SCH + 'WakeUpNeeded')
        for T in (10, T1 - 1, T1, 150, T2, 250):
            for q in self.call(wk, W.S, p=W.settime(self.p, T)):
                if not self.check('C18.sched.wake', q.end == 'ret', q, 'ends with %s' % q.end):
                    continue
                want = [(w[0], True, None) if w[2] is not None and w[2] <= T else w for w in self.want]
                self.shape('C18.sched.wake', q, want, 'wake-up at %d' % T)
                keys = sorted(rd(W.eng, q.st, n[0], n[1] + 32) for n in W.buckets(q))
                self.check('C18.sched.wake', keys == sorted({w[2] for w in want if w[2] is not None}), q, 'the sleep map holds %s after the wake-up at %d' % (keys, T))
        ks = [w[2] for w in self.want if w[2] is not None]
        if ks:
            for T in (10, T1, 150, 250):
                for q in self.call(W.fn(SCH + 'AdvanceTime'), W.S, p=W.settime(self.p, T)):
                    t = W.time(q)
                    self.check('C18.sched.wake', q.end == 'ret' and t == max(T, min(ks)), q, 'the clock advances from %d to %s, next sleeper at %d' % (T, t, min(ks)))

    def loop(self):
        W = self.W
        f = W.fn(SCH + 'RunLoop')
        ks = [w[2] for w in self.want if w[2] is not None]
        ready = [i for i, w in enumerate(self.want) if w[1] or (w[2] is not None and w[2] <= self.now)]
        idle = not any(w[1] for w in self.want)
        if idle and ks and not ready:
            ready = [i for i, w in enumerate(self.want) if w[2] == min(ks)]
        for d in range(6):
            for q in self.call(f, W.S, p=W.draw(self.p, d)):
                if not ready:
                    self.check('C18.sched.run', q.end == 'ret' and q.st.mem and rd(W.eng, q.st, W.cur, 0) == 0, q, 'the loop does not stop without fibers')
                    continue
                if not self.check('C18.sched.run', q.end == 'switch', q, 'the loop ends with %s although fibers are left' % q.end):
                    continue
                c = rd(W.eng, q.st, W.cur, 0)
                i = [i for i in range(len(self.want)) if q.res(W.F[i]) == c]
                if not self.check('C18.sched.run', len(i) == 1 and i[0] in ready, q, 'the loop resumes a fiber that is not runnable'):
                    continue
                i = i[0]
                t0 = max(self.now, min(ks)) if idle else self.now
                want = [(w[0], True, None) if w[2] is not None and w[2] <= t0 else w for w in self.want]
                want[i] = (want[i][0], False, None)
                self.shape('C18.sched.run', q, want, 'fiber %d resumed' % i)
                t = W.time(q)
                self.check('C18.sched.run', type(t) is int and t >= t0, q, 'time runs backwards')
                sw = [e for e in W.own(q) if e.k == 'call' and e.sn == FIB + 'ExecutionContext::SwitchTo']
                self.check('C18.sched.run', len(sw) == 1 and issym(q.res(sw[0].args[1])) and q.res(sw[0].args[1])[0] == c[0], q, 'the loop does not switch to the fiber it picked')


def sched(chk, tier, C):
    chk.rule('C18.sched.list', 'run queue, wait queue and sleep map stay well formed and own the fibers put there')
    chk.rule('C18.queue.notify', 'notify_one makes exactly one parked fiber runnable, notify_all every one, others are untouched')
    chk.rule('C18.queue.wait', 'a wait parks the running fiber on the queue and leaves it unlinked when it returns')
    chk.rule('C18.queue.timed', 'a timed wait ends with timeout at or after its deadline iff it was not notified')
    chk.rule('C18.sched.sleep', 'sleeping fibers are resumed at or after the requested time')
    chk.rule('C18.sched.yield', 'yield keeps the fiber runnable')
    chk.rule('C18.sched.wake', 'a wake-up releases exactly the sleepers whose time has come')
    chk.rule('C18.sched.run', 'the loop resumes a runnable fiber for every draw and stops only without fibers')
    n = 2 if tier == 'quick' else 3
    W = World(chk, C, n + 2)
    ws = worlds(n, list(PLACE))

    def one(l):
        for k in l:
            Sched(chk, W, k).run()
    step = max(1, len(ws) // 32)
    chk.parallel([ws[i::32] for i in range(min(32, len(ws)))], one)


# ---------------------------------------------------------------- condition variable

class Cv(Lock):
    """a condition variable and its mutex; the mutex closure gives every state other fibers may leave it in"""

    def __init__(self, chk, C, waits):
        Lock.__init__(self, chk, C, 'mutex', 'ex', 2, waits)
        self.opts['models'] = dict(self.opts['models'], **{'Pred::operator()': self.m_pred})
        self.held = self.freed = None

    def mine(self, st):
        k = mkey(st, self.b)
        lab = st.user['lab']
        return k in self.heldk and (lab == FREE or (lab == ('X', 1, 1)))

    def m_pred(self, eng, st, f, ins, fn, args):
        out = []
        old = st.user.get('predv')
        for v in (0, 1) if old is None else (old,):     # its answer depends on what the mutex guards
            s = st.fork()
            s.forks += 1
            s.user['predv'] = v
            ev_call(eng, s, fn, args, ins, v, pred=True, mine=self.mine(s))
            eng.finish_call(s, ins, v)
            out.append(s)
        return out

    def m_wait(self, eng, st, f, ins, fn, args):
        q = eng.resolve(st, args[0])
        if not issym(q) or q[0] != getattr(self, 'cv', (None,))[0]:
            return Lock.m_wait(self, eng, st, f, ins, fn, args)
        n = st.user.get('cvwaits', 0)
        dl = wait_deadline(eng, st, fn, args)
        st.user['cvwaits'] = n + 1
        st.user['waits'] = 0
        st.user['predv'] = None
        rel = mkey(st, self.b) in self.freek
        if n >= self.waits:
            ev_call(eng, st, fn, args, ins, None, cvwait=True, q=q, rel=rel, dl=dl, status=None)
            return eng.end(st, 'cut')
        out = []
        for status in ((READY,) if dl is None else (READY, TIMEOUT)):
            for (k, lab), p in self.envstates(None):
                s = st.fork()
                s.forks += 1
                ev_call(eng, s, fn, args, ins, status, cvwait=True, q=q, rel=rel, dl=dl, status=status)
                s.mem[self.b] = {o: (sz, v) for o, sz, v in k}
                s.own.add(self.b)
                s.user['key'], s.user['lab'] = k, lab
                eng.finish_call(s, ins, status)
                out.append(s)
        return out

    def run(self):
        chk = self.chk
        c2 = Check(chk.pid, chk.tier)
        self.chk = c2
        Lock.run(self)       # reported by the lock rules
        self.chk = chk
        eng, C = self.eng, self.C
        self.heldk = {k for k, l in self.states if l[0] == 'X'}
        self.freek = {k for k, l in self.states if l == FREE}
        if self.heldk & self.freek:
            raise AnalysisError('mutex states do not tell free from held')
        kl = [x for x in self.states if x[1] == ('X', 1, 1)][0]
        p0 = self.states[kl]
        self.cv = eng.sym('alloca', 'cv')
        p0 = C.resume(p0, 'cv_make', [self.cv])[0]
        lk = eng.sym('alloca', 'lock')
        d = eng.sym('arg', 'deadline')
        pred = eng.sym('alloca', 'pred')

        def init(e, st, vals):
            st.user['me'], st.user['waits'], st.user['cvwaits'] = 1, 0, 0
            st.user['key'], st.user['lab'] = kl
            e.store(st, lk, 8, (self.b, 0))
            e.store(st, (lk[0], 8), 1, 1)
        queues = {}
        for e, args, timed, wp in (('cv_wait', [], 0, 0), ('cv_wait_p', [pred], 0, 1), ('cv_wait_for', [d], 'for', 0), ('cv_wait_until', [d], 'until', 0),
                                   ('cv_wait_for_p', [d, pred], 'for', 1), ('cv_wait_until_p', [d, pred], 'until', 1)):
            nw = 0
            for q in C.resume(p0, e, [self.cv, lk] + args, init):
                ev = q.ev[q.nprev:]
                steps = [x for x in ev if x.cvwait or x.pred]
                for x in ev:
                    if x.cvwait:
                        nw += 1
                        queues.setdefault(x.q[1], x)
                        chk.ob('C18.cv.release', x.rel, where(q, x), '%s parks its fiber without releasing the mutex' % e, q)
                        rel = max([y.i for y in ev if y.i < x.i and y.k == 'st' and base(q, y.addr) == self.b] or [-1])
                        inj = [y for y in ev if rel < y.i < x.i and y.k == 'call' and y.sn == 'yaclib::InjectFault']
                        chk.ob('C18.cv.release', not inj, where(q, x), '%s: other fibers may run between releasing the mutex and parking: a notification is lost' % e, q)
                        if timed:
                            ok = False
                            if x.dl and x.dl[0] == 'point' and timed == 'for':
                                nows = [y.ret for y in ev if y.k == 'call' and y.sn == SCH + 'GetTimeNs' and y.i < x.i]
                                ok = any(sum_is(q, x.dl[1], n, d) for n in nows)
                            elif x.dl:
                                ok = q.decide_eq(x.dl[1], d) is True
                            if wp and timed == 'for' and x.dl and x.dl[0] == 'duration':
                                ok = False   # every spurious wake-up would start the whole duration again
                            chk.ob('C18.cv.deadline', ok, where(q, x), '%s does not wait until the requested deadline' % e, q)
                        else:
                            chk.ob('C18.cv.deadline', x.dl is None, where(q, x), '%s waits with a deadline' % e, q)
                    elif x.pred:
                        chk.ob('C18.cv.lock', x.mine, where(q, x), '%s evaluates the predicate without the mutex' % e, q)
                if q.end == 'cut':
                    continue
                if not chk.ob('C18.cv.result', q.end == 'ret', where(q), '%s ends with %s' % (e, q.end), q):
                    continue
                chk.ob('C18.cv.lock', self.mine(q.st), where(q), '%s returns without holding the mutex' % e, q)
                chk.ob('C18.cv.lock', rd(eng, q.st, lk[0], 0) == (self.b, 0) and (rd(eng, q.st, lk[0], 8) or 0) & 1 == 1, where(q), '%s: the unique_lock does not own the mutex afterwards' % e, q)
                # no barging: the mutex was taken only when it was free
                last = [x for x in ev if x.wait or x.cvwait]
                r = q.res(q.ret)
                waits = [x for x in steps if x.cvwait]
                if not wp:
                    ok = len(waits) == 1 and (not timed or (type(r) is int and bool(r & 1) == (waits[0].status == TIMEOUT)))
                    chk.ob('C18.cv.result', ok, where(q), '%s does not return the outcome of one wait' % e, q)
                else:
                    ok = bool(steps) and bool(steps[-1].pred)
                    if ok and not timed:
                        ok = steps[-1].ret == 1
                    elif ok:
                        ok = type(r) is int and bool(r & 1) == bool(steps[-1].ret)
                        if steps[-1].ret == 0:
                            ok = ok and bool(waits) and waits[-1].status == TIMEOUT
                    chk.ob('C18.cv.result', ok, where(q), '%s returns although the predicate does not hold and the deadline has not passed, or a stale answer' % e, q)
                    for a, b in zip(steps, steps[1:]):
                        if b.cvwait:
                            chk.ob('C18.cv.result', bool(a.pred) and a.ret == 0, where(q, b), '%s waits although the predicate holds or was not evaluated' % e, q)
            chk.ob('C18.cv.result', nw > 0, e, '%s never waits' % e)
        for e, sns in (('cv_notify_one', (FQ + 'NotifyOne', FQ + 'NotifyAll')), ('cv_notify_all', (FQ + 'NotifyAll',))):
            for q in C.resume(p0, e, [self.cv]):
                ev = q.ev[q.nprev:]
                for off in queues:
                    ok = q.end == 'ret' and (any(x.k == 'call' and x.sn in sns and q.res(x.args[0]) == (self.cv[0], off) for x in ev) or
                                             any(x.k == 'call' and x.sn == FQ + 'Empty' and x.ret == 1 for x in ev))
                    chk.ob('C18.cv.notify', ok, where(q), '%s does not wake a parked fiber' % e, q)


def condvar(chk, tier, C):
    chk.rule('C18.cv.release', 'a wait releases the mutex and parks in one step')
    chk.rule('C18.cv.lock', 'the mutex is held when a wait returns and when the predicate is evaluated')
    chk.rule('C18.cv.deadline', 'timed waits wait until the requested virtual time')
    chk.rule('C18.cv.result', 'a wait returns what happened: notified, timed out, or the value of the predicate')
    chk.rule('C18.cv.notify', 'notifications reach the queue the waiters park on')
    Cv(chk, C, 2).run()


# ---------------------------------------------------------------- threads

def m_fn(self, st, f, ins, fn, args):
    """the thread function: returns or throws"""
    s2 = st.fork()
    s2.forks += 1
    out = []
    for v, s in ((0, st), (1, s2)):
        ev_call(self, s, fn, args, ins, None, body=True, throws=v)
        if v:
            s.exc = (self.sym('exc', 'client'), 'client')
            r = self.unwind(s)
            if r is not CONT:
                raise AnalysisError('exception of the thread function')
        else:
            self.finish_call(s, ins)
        out.append(s)
    return out


class Threads:
    def __init__(self, chk, C):
        self.chk, self.C = chk, C
        self.W = W = World(chk, C, 2)
        self.eng = W.eng
        p = W.setcur(W.start, W.F[0])
        self.th = self.eng.sym('alloca', 'thread')
        f = self.eng.sym('alloca', 'function')
        ps = [q for q in C.resume(p, 'th_make', [self.th, f]) if q.end == 'ret']
        if not ps:
            raise AnalysisError('thread construction')
        self.p = p = ps[0]
        news = [v for o, (s, v) in p.st.mem[self.th[0]].items()]
        self.fib = [self.eng.resolve(p.st, v) for v in news if issym(self.eng.resolve(p.st, v))]
        if len(self.fib) != 1:
            raise AnalysisError('the fiber of a thread is not recognised')
        self.fib = self.fib[0]
        W.extra = lambda p: (self.fib[0],)
        self.tramp = [n for n, f in C.m.fns.items() if f.sn == FIB + 'Fiber::Trampoline' and 'probe' in n]
        if len(self.tramp) != 1:
            raise AnalysisError('trampoline not found')

    def w(self, p, f=None):
        return self.W.where(p, f or self.W.F[0])

    def ob(self, rid, ok, q, msg):
        return self.chk.ob(rid, ok, q.entry.split(' > ')[-1], msg, q)

    def freed(self, p):
        return self.fib[0] in p.st.freed

    def empty(self, p):
        q = self.W.go(p, 'th_joinable', self.th)
        v = q.res(q.ret)
        return type(v) is int and v & 1 == 0

    def completed(self, p):
        q = self.W.go(p, 'th_completed', self.fib)
        v = q.res(q.ret)
        return type(v) is int and v & 1 == 1

    def resumed(self, p, d=0):
        """the loop picks the thread's fiber"""
        W = self.W
        for k in range(6):
            q = W.C.resume(W.draw(p, k), W.fn(SCH + 'RunLoop'), [W.S])
            q = [x for x in q if x.end == 'switch']
            if len(q) == 1 and rd(self.eng, q[0].st, W.cur, 0) == self.fib:
                return W.draw(q[0], 0)
        raise AnalysisError('the thread is never run')

    def body(self, p):
        """run of the fiber's entry from the first switch to its last"""
        return self.C.resume(p, self.tramp[0], [self.fib])

    def run(self):
        W, chk, C, p = self.W, self.chk, self.C, self.p
        self.ob('C18.thread.start', W.where(p, self.fib) == (False, True, None), p, 'a new thread is not runnable: %s' % (W.where(p, self.fib),))
        self.ob('C18.thread.state', not self.empty(p), p, 'a new thread is not joinable')
        # misuse
        e = self.eng.sym('alloca', 'thread')
        pe = W.go(p, 'th_empty', e)
        for op in ('th_join', 'th_detach'):
            for q in C.resume(pe, op, [e]):
                self.ob('C18.thread.state', q.end == 'unwind', q, '%s of an empty thread does not throw (%s)' % (op[3:], q.end))
        for q in C.resume(W.setcur(p, self.fib), 'th_join', [self.th]):
            self.ob('C18.thread.state', q.end == 'unwind' and not self.freed(q), q, 'a thread joins itself')
        for q in C.resume(pe, 'th_dtor', [e]):
            self.ob('C18.thread.state', q.end == 'ret', q, 'destruction of an empty thread ends with %s' % q.end)
        for q in C.resume(p, 'th_dtor', [self.th]):
            self.ob('C18.thread.state', q.end == 'terminate', q, 'destruction of a joinable thread ends with %s' % q.end)
        # moves
        m = self.eng.sym('alloca', 'thread')
        q = W.go(p, 'th_move', m, self.th)
        a = W.go(q, 'th_joinable', m)
        self.ob('C18.thread.state', self.empty(q) and (a.res(a.ret) or 0) & 1 == 1, q, 'a move does not transfer the thread')
        q = W.go(pe, 'th_assign', e, self.th)
        a = W.go(q, 'th_joinable', e)
        self.ob('C18.thread.state', self.empty(q) and (a.res(a.ret) or 0) & 1 == 1, q, 'a move assignment does not transfer the thread')
        # join before the thread runs
        js = C.resume(p, 'th_join', [self.th])
        for j in js:
            if not self.ob('C18.thread.join', j.end == 'switch', j, 'join returns before the thread function finished (%s)' % j.end):
                continue
            self.ob('C18.thread.join', self.w(j) == (False, False, None), j, 'the joiner stays runnable')
            # a wake-up that is not the completion
            s = W.go(W.setcur(j, W.F[1]), 'sch_schedule', W.S, W.F[0])
            for g in [x for d in range(6) for x in C.resume(W.draw(s, d), W.fn(SCH + 'GetNext'), [W.S]) if x.end == 'ret' and x.res(x.ret) == x.res(W.F[0])][:1]:
                for r in W.cont(j, W.draw(W.setcur(g, W.F[0]), 0)):
                    self.ob('C18.thread.join', r.end == 'switch', r, 'join returns although the thread function has not finished')
            self.finish(j, j)
        # join while it runs (it left once)
        run = self.resumed(p)
        y = W.one(C.resume(run, 'sch_yield', []), 'switch')
        for j in C.resume(W.setcur(y, W.F[0]), 'th_join', [self.th]):
            if self.ob('C18.thread.join', j.end == 'switch', j, 'join returns before the thread function finished (%s)' % j.end):
                self.finish(j, j)
        # join and detach after completion
        for b in self.body(run):
            if not self.ob('C18.thread.body', b.end == 'switch', b, 'the thread ends with %s' % b.end):
                continue
            self.bodyok(b)
            self.ob('C18.thread.free', not self.freed(b), b, 'a finished thread is freed while its handle is alive')
            for l in W.cont(run, b):
                if l.end == 'unwind':
                    continue
                self.ob('C18.thread.free', not self.freed(l), l, 'the loop frees a finished thread whose handle is alive')
                x = W.setcur(l, W.F[0])
                for op in ('th_join', 'th_detach'):
                    for q in C.resume(x, op, [self.th]):
                        self.ob('C18.thread.join', q.end == 'ret', q, '%s of a finished thread ends with %s' % (op[3:], q.end))
                        self.ob('C18.thread.free', self.frees(q) == 1 and self.empty(q), q, '%s of a finished thread must release it and empty the handle' % op[3:])
        # detach while running
        for q in C.resume(W.setcur(p, W.F[0]), 'th_detach', [self.th]):
            if not self.ob('C18.thread.state', q.end == 'ret' and self.empty(q), q, 'detach ends with %s or leaves the handle joinable' % q.end):
                continue
            self.ob('C18.thread.free', not self.freed(q), q, 'detach frees a running thread')
            run = self.resumed(q)
            for b in self.body(run):
                self.bodyok(b)
                n0 = self.freed(b)
                self.ob('C18.thread.free', not n0, b, 'a fiber frees the stack it runs on')
                for l in W.cont(run, b):
                    if l.end == 'unwind':
                        continue    # the exception of the function leaves the loop
                    self.ob('C18.thread.free', self.freed(l), l, 'a finished detached thread is never freed')

    def frees(self, q):
        return 1 if self.freed(q) else 0

    def bodyok(self, b):
        ev = b.ev[b.nprev:]
        calls = [e for e in ev if e.body]
        self.ob('C18.thread.body', len(calls) == 1, b, 'the thread function is called %d times' % len(calls))
        self.ob('C18.thread.body', self.completed(b), b, 'the fiber leaves for the last time without being completed')
        if calls:
            st = [e for e in ev if e.k == 'st' and base(b, e.addr) == self.fib[0] and e.i < calls[0].i and e.size == 4]
            self.ob('C18.thread.body', not [e for e in st if type(b.res(e.val)) is int and self.isdone(b, e)], b, 'the fiber is completed before its function ran')

    def isdone(self, b, e):
        last = [x for x in b.ev[b.nprev:] if x.k == 'st' and b.res(x.addr) == b.res(e.addr)]
        return b.res(last[-1].val) == b.res(e.val) and last[-1] is not e

    def finish(self, j, p):
        """the thread completes while fiber 0 is in join"""
        W = self.W
        run = self.resumed(p)
        for b in self.body(run):
            if not self.ob('C18.thread.body', b.end == 'switch', b, 'the thread ends with %s' % b.end):
                continue
            self.bodyok(b)
            if not self.ob('C18.thread.join', self.w(b) == (False, True, None), b, 'completion does not wake the joiner: %s' % (self.w(b),)):
                continue
            self.ob('C18.thread.free', not self.freed(b), b, 'a fiber frees the stack it runs on')
            for l in W.cont(run, b):
                if l.end == 'unwind':
                    continue    # the exception of the function leaves the loop
                self.ob('C18.thread.free', not self.freed(l), l, 'the loop frees a thread that is being joined')
                x = W.setcur(l, W.F[0])
                for r in W.cont(j, x):
                    self.ob('C18.thread.join', r.end == 'ret' and self.empty(r), r, 'join of a finished thread ends with %s' % r.end)
                    self.ob('C18.thread.free', self.frees(r) == 1, r, 'join does not release the finished thread')


def threads(chk, tier, C):
    chk.rule('C18.thread.start', 'a new thread is runnable')
    chk.rule('C18.thread.state', 'joinable, move, misuse and destruction behave as std::thread')
    chk.rule('C18.thread.join', 'join returns after the function finished and is woken by it')
    chk.rule('C18.thread.body', 'the function runs once, before the fiber is completed, and the fiber is completed when it leaves')
    chk.rule('C18.thread.free', 'a fiber is freed once, after it finished and was joined or detached')
    Threads(chk, C).run()


# ---------------------------------------------------------------- thread local pointers

def um_node(self, st, m, key, make):
    k = ('map', self.resolve(st, m))
    l = st.user.get(k, ())
    for kk, n in l:
        if kk == key:
            return n
    if not make:
        return 0
    n = self.sym('new', 'map node')
    self.store(st, (n[0], 8), 8, key)
    self.store(st, (n[0], 16), 8, 0)
    st.user[k] = l + ((key, n),)
    return n


def um_key(self, st, a):
    return self.resolve(st, self.load(st, self.resolve(st, a), 8, 'i64', False))


def m_um(make, off):
    def m(self, st, f, ins, fn, args):
        n = um_node(self, st, args[0], um_key(self, st, args[1]), make)
        if off and n == 0:
            raise AnalysisError('at() of a missing key')
        return self.finish_call(st, ins, (n[0], n[1] + off) if off else n)
    return m


def m_um_count(self, st, f, ins, fn, args):
    return self.finish_call(st, ins, 1 if um_node(self, st, args[0], um_key(self, st, args[1]), False) else 0)


def m_um_erase(self, st, f, ins, fn, args):
    k = ('map', self.resolve(st, args[0]))
    key = um_key(self, st, args[1])
    l = st.user.get(k, ())
    st.user[k] = tuple(x for x in l if x[0] != key)
    return self.finish_call(st, ins, len(l) - len(st.user[k]))


UM = 'std::unordered_map::'
WORLD.update({UM + 'find': m_um(False, 0), UM + 'end': m_rec(0), UM + 'operator[]': m_um(True, 16), UM + 'at': m_um(False, 16), UM + 'count': m_um_count, UM + 'contains': m_um_count,
              UM + 'erase': m_um_erase})


def tls(chk, tier, C):
    chk.rule('C18.tls', 'a thread-local pointer has one value per fiber, untouched by other fibers and other pointers')
    W = World(chk, C, 2)
    eng = W.eng
    sym = lambda n: eng.sym('alloca', n)
    P = {k: sym('proxy ' + k) for k in 'ABCM'}
    v = {k: sym(k) for k in ('v0', 'v1', 'v2', 'v3')}

    first = []

    def do(p, fib, e, *a):
        ps = C.resume(W.setcur(p, W.F[fib]), e, list(a))
        if len(ps) == 2 and not first:
            first.append(1)    # a function-local static is initialised by its first use
            ps = [max(ps, key=lambda q: len(q.ev))]
        return W.one(ps)

    def same(p, want, what):
        for (fib, n), w in want.items():
            for e in ('tl_get', 'tl_arrow', 'tl_deref'):
                q = do(p, fib, e, P[n])
                chk.ob('C18.tls', q.res(q.ret) == w, '%s: %s' % (what, e), 'pointer %s of fiber %d is %s, expected %s' % (n, fib, q.fmt(q.ret), q.fmt(w)) if q.res(q.ret) != w else '', q)
            q = do(p, fib, 'tl_bool', P[n])
            r = q.res(q.ret)
            chk.ob('C18.tls', type(r) is int and (r & 1) == (w != 0), '%s: operator bool' % what, 'pointer %s of fiber %d' % (n, fib), q)

    p = do(W.start, 0, 'tl_make', P['A'])
    p = do(p, 0, 'tl_make_v', P['B'], v['v0'])
    want = {(0, 'A'): 0, (1, 'A'): 0, (0, 'B'): v['v0'], (1, 'B'): v['v0']}
    same(p, want, 'after construction')
    p = do(p, 0, 'tl_set', P['A'], v['v1'])
    want[0, 'A'] = v['v1']
    same(p, want, 'after an assignment')
    p = do(p, 1, 'tl_set', P['A'], v['v2'])
    want[1, 'A'] = v['v2']
    same(p, want, 'after an assignment in another fiber')
    base_p, base_w = p, dict(want)
    for fib in (0, 1):
        for val in (0, v['v3']):
            for n in 'AB':
                q = do(base_p, fib, 'tl_set', P[n], val)
                w = dict(base_w)
                w[fib, n] = val
                same(q, w, 'after an assignment')
        for e in ('tl_assign', 'tl_assign_m'):
            for a, b in ('AB', 'BA'):
                q = do(base_p, fib, e, P[a], P[b])
                w = dict(base_w)
                w[fib, a] = base_w[fib, b]
                if e == 'tl_assign_m':
                    w = {k: x for k, x in w.items() if k[1] != b}
                same(q, w, 'after %s' % e[3:])
        q = do(base_p, fib, 'tl_copy', P['C'], P['A'])
        w = dict(base_w)
        w[fib, 'C'] = base_w[fib, 'A']
        same(q, w, 'after a copy')
        for n, val in (('C', v['v3']), ('A', v['v3'])):
            q2 = do(q, fib, 'tl_set', P[n], val)
            w2 = dict(w)
            w2[fib, n] = val
            same(q2, w2, 'after an assignment to a copy')
        q = do(base_p, fib, 'tl_move', P['M'], P['A'])
        same(q, {(0, 'M'): base_w[0, 'A'], (1, 'M'): base_w[1, 'A'], (0, 'B'): v['v0'], (1, 'B'): v['v0']}, 'after a move')


def c18(chk, tier):
    C = Ctx(chk, 'fiber.cpp', fault=2)
    locks(chk, tier, C)
    sched(chk, tier, C)
    condvar(chk, tier, C)
    threads(chk, tier, C)
    tls(chk, tier, C)
