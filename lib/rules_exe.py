"""C07, C08 and the executor part of C04/C05 on the exe probe."""
from rules_task import *


def m_lock(self, st, f, ins, fn, args):
    """acquiring a mutex: whatever other threads wrote to the (shared) object that holds it becomes visible"""
    a = self.resolve(st, args[0])
    self.event(st, 'call', {'sn': fn.sn, 'name': fn.name, 'args': [a], 'ret': 0, '_l': ins.get('l', 0)})
    if issym(a) and self.bases[a[0]].kind not in ('alloca', 'new') and a[0] in st.mem:
        m = self.wmem(st, a[0])
        for o in [o for o in m if o != 0]:
            del m[o]
    return self.finish_call(st, ins, 0)


class XCtx(SCtx):
    def engine(self, **opts):
        e = SCtx.engine(self, **opts)
        e.models['pthread_mutex_lock'] = m_lock
        e.models['std::condition_variable::wait'] = lambda s, st, f, ins, fn, args: NOMODEL if fn.blocks else m_cvlock(s, st, f, ins, fn, args)
        return e


def m_cvlock(self, st, f, ins, fn, args):
    a = self.resolve(st, args[0])
    self.event(st, 'call', {'sn': fn.sn, 'name': fn.name, 'args': [self.resolve(st, x) for x in args], 'ret': None, '_l': ins.get('l', 0), 'wait': True})
    if issym(a) and a[0] in st.mem:
        m = self.wmem(st, a[0])
        for o in [o for o in m if o != 0]:
            del m[o]
    return self.finish_call(st, ins)


LISTOP = lambda f: f.sn.startswith('yaclib::detail::List::')


def loc_eq(p, a, b):
    a, b = p.res(a), p.res(b)
    return a == b


def writes(p, addr):
    """successful writes of an atomic word: (event, old, new, order, strong)"""
    out = []
    for e in p.ev:
        if e.k == 'cas' and e.ok and loc_eq(p, e.addr, addr):
            out.append((e, p.res(e.old), p.res(e.des), e.so))
        elif e.k == 'rmw' and loc_eq(p, e.addr, addr):
            out.append((e, p.res(e.old), p.res(e.val) if e.rmw == 'xchg' else None, e.ord))
        elif e.k in ('astore', 'ast', 'st') and loc_eq(p, e.addr, addr):
            out.append((e, None, p.res(e.val), e.d.get('ord', '')))
    return out


def touches(p, b, after, kinds=('ld', 'st', 'ald', 'ast', 'aload', 'astore', 'cas', 'rmw', 'vcall', 'call', 'free')):
    out = []
    for e in p.ev:
        if e.i <= after or e.k not in kinds:
            continue
        if e.k == 'vcall':
            if base(p, e.obj) == b or any(base(p, a) == b for a in e.args):
                out.append(e)
        elif e.k == 'free':
            if base(p, e.obj) == b:
                out.append(e)
        elif e.k == 'call':
            if any(base(p, a) == b for a in e.args):
                out.append(e)
        elif base(p, e.addr) == b:
            out.append(e)
    return out


def fates(p, b):
    return [e for e in p.ev if e.k == 'vcall' and e.m in ('Call', 'Drop') and base(p, e.obj) == b]


# ---------------------------------------------------------------- strand

class Strand:
    """roles of the strand's fields, recovered from its constructor and Submit"""

    def __init__(self, C):
        self.C = C
        ps = [p for p in C.paths('strand_make') if p.end == 'ret']
        if not ps:
            raise AnalysisError('MakeStrand has no returning path')
        sub = C.paths('strand_submit')
        self.word = None
        for p in sub:
            job = base(p, p.args[1])
            for e in p.ev:
                if e.k in ('cas', 'rmw') and base(p, e.addr) == base(p, p.args[0]) and base(p, e.des if e.k == 'cas' else e.val) == job:
                    self.word = p.res(e.addr)[1]
                    self.node = p.res(e.des if e.k == 'cas' else e.val)[1]
        if self.word is None:
            raise AnalysisError('Strand::Submit publishes its job nowhere')
        self.mark = None
        for p in ps:
            for b, m in p.st.mem.items():
                k = p.eng.bases[b]
                if k.kind == 'new' and self.word in m:
                    v = p.res(m[self.word][1])
                    if issym(v) and v[0] == b:
                        self.mark = v[1]
        if self.mark is None:
            raise AnalysisError('the idle mark of a new Strand was not found')


def isidle(p, v, s, S):
    return p.decide_eq(v, (base(p, s), S.mark))


def strand_rules(chk, C, pid, parts=('order', 'hb', 'ref', 'fate')):
    S = Strand(C)
    r = {}
    if 'order' in parts:
        r['pub'] = chk.rule(pid + '.strand.submit', 'Strand::Submit links the job to what it replaced and publishes it exactly once')
        r['sched'] = chk.rule(pid + '.strand.schedule', 'Submit schedules the strand iff the job replaced the idle mark')
        r['batch'] = chk.rule(pid + '.strand.batch', 'Call takes the inbox once and Calls every listed job exactly once in submission order')
        r['idle'] = chk.rule(pid + '.strand.idle', 'a batch ends either idle (empty inbox -> mark) or rescheduled (inbox not empty), never both or neither')
    if 'fate' in parts:
        r['drop'] = chk.rule(pid + '.strand.drop', 'a refused strand Drops every queued job exactly once and becomes idle')
    if 'hb' in parts:
        r['hb'] = chk.rule(pid + '.strand.order', 'publication releases, taking the batch acquires, becoming idle releases')
    if 'ref' in parts:
        r['ref'] = chk.rule(pid + '.strand.ref', 'the strand keeps itself alive from scheduling until idle and touches nothing afterwards')
    zero = 0

    def ob(k, ok, w, msg='', p=None):
        if k in r:
            chk.ob(r[k], ok, w, msg, p)

    for p in C.paths('strand_submit'):
        if p.end != 'ret':
            if p.end != 'cut':
                ob('pub', False, where(p), 'Submit ends by %s' % p.end, p)
            continue
        s, job = base(p, p.args[0]), base(p, p.args[1])
        wa = (s, S.word)
        ws = writes(p, wa)
        pubs = [w for w in ws if base(p, w[2]) == job]
        ob('pub', len(ws) == 1 and len(pubs) == 1, where(p), 'the job is published %d times (%d writes of the inbox)' % (len(pubs), len(ws)), p)
        if len(pubs) != 1:
            continue
        e, old, new, order = pubs[0]
        idle = isidle(p, old, p.args[0], S)
        link = None
        for x in p.ev:
            if x.i < e.i and x.k in ('st', 'ast', 'astore') and loc_eq(p, x.addr, new):
                link = p.res(x.val)
        want = 0 if idle else old
        ob('pub', link is not None and idle is not None and p.decide_eq(link, want) is True, where(p, e), 'the published job does not continue with the job it replaced (or end the list)', p)
        t = touches(p, job, e.i)
        ob('pub', not t, where(p, t[0] if t else e), 'the job is used after it was published', p)
        ob('hb', has_rel(order), where(p, e), 'publishing the job does not release', p)
        subs = [x for x in vcalls(p, 'Submit') if base(p, x.args[1]) == s]
        ob('sched', idle is not None and len(subs) == (1 if idle else 0), where(p), 'scheduled %d times when the inbox was %s' % (len(subs), 'idle' if idle else 'busy'), p)
        inc, dec = incs(p, s), decs(p, s)
        ob('ref', len(inc) - len(dec) == len(subs), where(p), 'references taken: %d, schedulings: %d' % (len(inc) - len(dec), len(subs)), p)
        if subs:
            ob('ref', inc and inc[0].i < subs[0].i and not touches(p, s, subs[0].i), where(p, subs[0]), 'the strand is used without a reference of its own', p)
            ob('sched', subs[0].i > e.i, where(p, subs[0]), 'scheduled before the job is visible', p)
        ob('pub', not fates(p, job), where(p), 'Submit itself finishes the job', p)

    for entry, kind in (('strand_call', 'Call'), ('strand_drop', 'Drop')):
        for p in C.paths(entry):
            if p.end not in ('ret', 'cut'):
                ob('batch', False, where(p), '%s ends by %s' % (kind, p.end), p)
                continue
            s = base(p, p.args[0])
            wa = (s, S.word)
            ws = writes(p, wa)
            rk = 'batch' if kind == 'Call' else 'drop'
            take = [w for w in ws if w[0].k == 'rmw' and w[0].rmw == 'xchg' or w[0].k == 'cas' and not (w[1] == 0)]
            if not take:
                if p.end == 'ret':
                    ob(rk, False, where(p), 'the inbox is never taken', p)
                continue
            e0, head, new, order = take[0]
            if p.decide_eq(head, 0):
                continue        # a scheduled strand has a non-empty inbox
            ob(rk, len(take) == 1 and p.decide_eq(new, 0 if kind == 'Call' else (s, S.mark)) is True, where(p, e0), 'the inbox is taken %d times or left in a wrong state' % len(take), p)
            ob('hb', has_acq(order) and (kind == 'Call' or has_rel(order)), where(p, e0), 'taking the batch does not %s' % ('acquire' if kind == 'Call' else 'acquire and release'), p)
            # the list, as linked by Submit
            chain = [head]
            while True:
                n = chain[-1]
                l = next((x for x in p.ev if x.i > e0.i and x.k in ('ld', 'aload', 'ald') and loc_eq(p, x.addr, n)), None)
                if l is None:
                    break
                v = p.res(l.val)
                if p.decide_eq(v, 0):
                    chain.append(0)
                    break
                chain.append(v)
                if len(chain) > 8:
                    break
            complete = chain[-1] == 0
            nodes = [c for c in chain if c != 0]
            if complete:
                nodes = chain[:-1]
            want = [c[0] for c in nodes]
            done = [x for x in p.ev if x.k == 'vcall' and x.m in ('Call', 'Drop') and base(p, x.obj) != s]
            got = [base(p, x.obj) for x in done]
            wrong = [x for x in done if x.m != kind]
            ob(rk, not wrong, where(p, wrong[0] if wrong else e0), 'a job is finished by %s' % (wrong[0].m if wrong else ''), p)
            dup = [b for b in got if got.count(b) > 1 or b not in want]
            ob(rk, not dup, where(p), 'a job is finished twice or is not of this batch', p)
            for x, b in zip(done, got):
                t = touches(p, b, x.i)
                ob(rk, not t, where(p, t[0] if t else x), 'a finished job is used again', p)
            for x in done:
                # the object the job pointer denotes must be the one the node belongs to
                o = p.res(x.obj)
                n = next((c for c in nodes if c[0] == o[0]), None)
                ob(rk, n is None or n[1] - o[1] == S.node, where(p, x), 'the job is finished through a wrong pointer', p)
            if p.end == 'cut':
                continue
            ob(rk, complete and sorted(got) == sorted(want), where(p), 'a job of the batch is lost', p)
            if kind == 'Call':
                ob('batch', got == want[::-1], where(p), 'jobs do not run in submission order', p)
            subs = [x for x in vcalls(p, 'Submit') if base(p, x.args[1]) == s]
            inc, dec = incs(p, s), decs(p, s)
            lastjob = max([x.i for x in done], default=e0.i)
            if kind == 'Call':
                marks = [w for w in ws if w[0] is not e0]
                okm = len(marks) <= 1 and all(w[0].k == 'cas' and w[1] == 0 and p.decide_eq(w[2], (s, S.mark)) is True for w in marks)
                ob('idle', okm, where(p, marks[0][0] if marks else None), 'the inbox is overwritten although it may hold jobs', p)
                ob('idle', len(marks) + len(subs) == 1, where(p), 'the batch ends with %d idle transitions and %d reschedulings' % (len(marks), len(subs)), p)
                for w in marks:
                    ob('idle', w[0].i > lastjob, where(p, w[0]), 'becomes idle before the last job of the batch has run', p)
                    ob('hb', has_rel(w[3]), where(p, w[0]), 'becoming idle does not release', p)
                for x in subs:
                    ob('idle', x.i > lastjob, where(p, x), 'rescheduled before the last job of the batch has run', p)
                    seen = [y for y in p.ev if y.i < x.i and y.i > e0.i and (y.k in ('aload', 'cas') and loc_eq(p, y.addr, wa))]
                    full = any(p.decide_eq(y.val if y.k == 'aload' else y.old, 0) is False for y in seen)
                    ob('idle', full, where(p, x), 'rescheduled although the inbox may be empty', p)
                    ob('ref', not inc and not dec and not touches(p, s, x.i), where(p, x), 'reference count changed or strand used around rescheduling', p)
                if marks and not subs:
                    ob('ref', len(dec) - len(inc) == 1 and dec[-1].i > marks[0][0].i and not touches(p, s, dec[-1].i), where(p), 'an idle strand does not release its own reference exactly once, last', p)
            else:
                ob('drop', not subs and len(ws) == 1, where(p), 'a refused strand is scheduled again or its inbox written again', p)
                ob('ref', len(dec) - len(inc) == 1 and dec and dec[-1].i > lastjob and not touches(p, s, dec[-1].i), where(p), 'a refused strand does not release its own reference exactly once, last', p)
    return S


# ---------------------------------------------------------------- fair thread pool

class Pool:
    def __init__(self, C):
        self.C = C
        self.list = self.count = self.m = self.cv = None
        ok = C.paths('pool_submit', opaque=LISTOP)
        for p in ok:
            s = base(p, p.args[0])
            for e in p.ev:
                if e.k == 'call' and e.sn.endswith('List::PushBack'):
                    self.list = p.res(e.args[0])[1]
                    self.node = p.res(e.args[1])[1]
                elif e.k == 'call' and e.sn == 'pthread_mutex_lock' and base(p, e.args[0]) == s:
                    self.m = p.res(e.args[0])[1]
                elif e.k == 'call' and 'condition_variable::notify' in e.sn and base(p, e.args[0]) == s:
                    self.cv = p.res(e.args[0])[1]
                elif e.k == 'st' and base(p, e.addr) == s:
                    self.count = p.res(e.addr)[1]
                    v = p.res(e.val)
                    self.k = v[1] if issym(v) else None
        self.stop = None
        for p in C.paths('pool_stop', opaque=LISTOP):
            for e in p.ev:
                if e.k == 'st' and base(p, e.addr) == base(p, p.args[0]) and p.res(e.addr)[1] == self.count:
                    self.stop = ormask(p, e.val)
        self.want = None
        for p in C.paths('pool_soft', opaque=LISTOP):
            for e in p.ev:
                if e.k == 'st' and base(p, e.addr) == base(p, p.args[0]) and p.res(e.addr)[1] == self.count and ormask(p, e.val) != self.stop:
                    self.want = ormask(p, e.val)
        for n in ('list', 'count', 'm', 'cv', 'k', 'stop', 'want'):
            if getattr(self, n) is None:
                raise AnalysisError('FairThreadPool: the %s of the pool was not recovered from Submit/Stop/SoftStop' % n)

    def bit(self, p, v, mask):
        """is a flag of count value v set: True/False/None"""
        v = p.res(v)
        if type(v) is int:
            return v & mask != 0
        x = p.eng.mkop(p.st, 'and', [v, mask], 64)
        r = p.decide_eq(x, 0)
        return None if r is None else not r

    def nojobs(self, p, v):
        v = p.res(v)
        if type(v) is int:
            return v < self.k
        sh = self.k.bit_length() - 1
        for x in (p.eng.mkop(p.st, 'lshr', [v, sh], 64), p.eng.mkop(p.st, 'and', [v, M64 ^ (self.k - 1)], 64)):
            r = p.decide_eq(x, 0)
            if r is not None:
                return r
        return p.eng.cmp(p.st, 'ult', v, self.k, 64)


def opof(p, v):
    v = p.res(v)
    if issym(v) and v[1] == 0:
        b = p.eng.bases[v[0]]
        if b.kind == 'op':
            return b.info
    return None


def ormask(p, v):
    o = opof(p, v)
    if o and o[0] == 'or' and type(o[2]) is int:
        return o[2]
    v = p.res(v)
    return v if type(v) is int and 0 < v < 4 else None


class Sections:
    """critical sections of one mutex along a path: sec[i] = section id of event i (0 = unlocked)"""

    def __init__(self, p, maddr):
        self.sec = {}
        cur, n = 0, 0
        self.bad = []
        self.at = {}
        for e in p.ev:
            if e.k == 'call' and e.sn == 'pthread_mutex_lock' and loc_eq(p, e.args[0], maddr):
                if cur:
                    self.bad.append((e, 'locked twice'))
                n += 1
                cur = n
            elif e.k == 'call' and e.sn == 'pthread_mutex_unlock' and loc_eq(p, e.args[0], maddr):
                if not cur:
                    self.bad.append((e, 'unlocked while not held'))
                self.sec[e.i] = cur
                cur = 0
                continue
            self.sec[e.i] = cur
            if e.k == 'call' and e.d.get('wait'):
                if not cur:
                    self.bad.append((e, 'waits without the lock'))
                n += 1
                cur = n
        self.end = cur


def pool_entry(C, P, name):
    for p in C.paths(name, opaque=LISTOP):
        s = base(p, p.args[0])
        yield p, s, Sections(p, (s, P.m))


def pool_rules(chk, C, pid, parts=('lock', 'fate', 'stop', 'wait')):
    P = Pool(C)
    R = {}
    if 'lock' in parts:
        R['lock'] = chk.rule(pid + '.pool.lock', 'the queue and its counter are accessed only under the pool mutex, each critical section is closed')
    if 'fate' in parts:
        R['submit'] = chk.rule(pid + '.pool.submit', 'Submit: stopped -> Drop once, otherwise queued at the back once, counted, and a worker notified')
        R['loop'] = chk.rule(pid + '.pool.loop', 'a worker Calls each job it pops exactly once, unlocked, and uncounts it after it has run')
        R['hard'] = chk.rule(pid + '.pool.hard', 'HardStop takes the whole queue and stops in one critical section, then Drops each taken job once')
    if 'stop' in parts:
        R['soft'] = chk.rule(pid + '.pool.softstop', 'SoftStop stops only when no job is queued or running, else asks the workers to; Stop stops')
        R['exit'] = chk.rule(pid + '.pool.exit', 'a worker leaves only with an empty queue and stop decided; it sleeps only when there is nothing to do')
        R['notify'] = chk.rule(pid + '.pool.notify', 'setting the stop flag wakes every worker')
    if 'wait' in parts:
        R['wait'] = chk.rule(pid + '.pool.wait', 'Wait joins every worker; the pool starts one per requested thread, each running Loop')

    def ob(k, ok, w, msg='', p=None):
        if k in R:
            chk.ob(R[k], ok, w, msg, p)

    def counts(p, s, S):
        """counter writes: (event, kind, amount, loaded value it is based on)"""
        for e in p.ev:
            if e.k == 'st' and loc_eq(p, e.addr, (s, P.count)):
                yield e

    def setsbit(p, e, mask):
        return P.bit(p, e.val, mask) is True

    def common(p, s, S):
        for e, m in S.bad:
            ob('lock', False, where(p, e), m, p)
        if p.end == 'ret':
            ob('lock', S.end == 0, where(p), 'returns with the mutex held', p)
        for e in p.ev:
            if e.k in ('ld', 'st') and loc_eq(p, e.addr, (s, P.count)) or e.k == 'call' and '::List::' in (e.sn or '') and any(p.res(a) == (s, P.list) for a in e.args):
                ob('lock', S.sec[e.i] != 0, where(p, e), 'shared state of the pool used without its mutex', p)
            if e.k == 'vcall' and e.m in ('Call', 'Drop', 'Submit'):
                ob('lock', S.sec[e.i] == 0, where(p, e), 'client code runs under the pool mutex', p)
        for e in counts(p, s, S):
            # based on a value of the same section
            ld = [x for x in p.ev if x.k == 'ld' and x.i < e.i and loc_eq(p, x.addr, (s, P.count)) and S.sec[x.i] == S.sec[e.i]]
            ob('lock', bool(ld), where(p, e), 'the counter is written from a value read in another critical section', p)
            if P.bit(p, e.val, P.stop) is True and not any(P.bit(p, x.val, P.stop) is True for x in ld):
                na = [x for x in p.ev if x.i > e.i and x.k == 'call' and x.sn.endswith('notify_all') and loc_eq(p, x.args[0], (s, P.cv))]
                if p.end == 'ret':
                    ob('notify', bool(na), where(p, e), 'the pool is stopped without waking every worker', p)

    def listops(p, a, S=None, sec=None):
        return [e for e in p.ev if e.k == 'call' and '::List::' in (e.sn or '') and p.res(e.args[0]) == a and (sec is None or S.sec[e.i] == sec)]

    def op(e):
        return e.sn.split('::')[-1]

    # Submit
    for p, s, S in pool_entry(C, P, 'pool_submit'):
        if p.end != 'ret':
            ob('submit', p.end == 'cut', where(p), 'Submit ends by %s' % p.end, p)
            continue
        common(p, s, S)
        job = base(p, p.args[1])
        push = [e for e in listops(p, (s, P.list)) if op(e) != 'Empty']
        f = fates(p, job)
        cw = list(counts(p, s, S))
        lds = [x for x in p.ev if x.k == 'ld' and loc_eq(p, x.addr, (s, P.count))]
        stopped = [P.bit(p, x.val, P.stop) for x in lds]
        if f:
            ob('submit', len(f) == 1 and f[0].m == 'Drop' and not push and not cw, where(p), 'a refused job is not simply Dropped once', p)
            ob('submit', True in stopped, where(p, f[0]), 'a job is refused by a pool that is not stopped', p)
        else:
            ob('submit', len(push) == 1 and op(push[0]) == 'PushBack' and base(p, push[0].args[1]) == job, where(p), 'an accepted job is not queued exactly once at the back', p)
            if len(push) == 1:
                ob('submit', lds and any(P.bit(p, x.val, P.stop) is False and S.sec[x.i] == S.sec[push[0].i] for x in lds), where(p, push[0]), 'a job is queued without a stop check in the same critical section', p)
                ok = len(cw) == 1 and S.sec[cw[0].i] == S.sec[push[0].i] and P.bit(p, cw[0].val, P.stop) is not True
                ob('submit', ok, where(p, push[0]), 'an accepted job is not counted in the same critical section', p)
                n = [e for e in p.ev if e.k == 'call' and 'notify_' in e.sn and e.i > push[0].i and loc_eq(p, e.args[0], (s, P.cv))]
                ob('submit', bool(n), where(p, push[0]), 'no worker is notified of the job', p)
                t = touches(p, job, push[0].i)
                ob('submit', not t, where(p, t[0] if t else None), 'the job is used after it was queued', p)
    # stop family
    for name in ('pool_soft', 'pool_stop', 'pool_hard', 'pool_alive'):
        for p, s, S in pool_entry(C, P, name):
            if p.end not in ('ret', 'cut'):
                ob('soft', False, where(p), '%s ends by %s' % (name, p.end), p)
                continue
            common(p, s, S)
            if p.end == 'cut' and name != 'pool_hard':
                continue
            cw = list(counts(p, s, S))
            lds = [x for x in p.ev if x.k == 'ld' and loc_eq(p, x.addr, (s, P.count))]
            if name == 'pool_soft':
                nj = [P.nojobs(p, x.val) for x in lds]
                ws = [e for e in cw if setsbit(p, e, P.stop)]
                ww = [e for e in cw if setsbit(p, e, P.want)]
                already = any(P.bit(p, x.val, P.stop) is True for x in lds)
                if ws and not already:
                    ob('soft', True in nj and any(S.sec[x.i] == S.sec[ws[0].i] for x, y in zip(lds, nj) if y), where(p, ws[0]), 'stops although jobs may be queued or running', p)
                elif not already:
                    ob('soft', bool(ww), where(p), 'neither stops nor asks the workers to', p)
                    ob('soft', False in nj, where(p), 'the pool may be idle, but is not stopped (nobody will)', p)
            elif name == 'pool_stop':
                ob('soft', any(setsbit(p, e, P.stop) for e in cw) or any(P.bit(p, x.val, P.stop) is True for x in lds), where(p), 'Stop does not set the stop flag', p)
            if name in ('pool_soft', 'pool_stop'):
                ob('soft', not [e for e in listops(p, (s, P.list)) if op(e) != 'Empty'] and not [e for e in p.ev if e.k == 'vcall' and e.m in ('Call', 'Drop')], where(p), 'accepted jobs are touched', p)
            if name == 'pool_hard':
                st = [e for e in cw if setsbit(p, e, P.stop)]
                tak = [e for e in p.ev if e.k == 'call' and '::List::' in e.sn and any(p.res(a) == (s, P.list) for a in e.args) and op(e) != 'Empty']
                ob('hard', bool(st) and bool(tak), where(p), 'HardStop does not stop, or does not take the queue', p)
                if st and tak:
                    ob('hard', {S.sec[e.i] for e in st} == {S.sec[e.i] for e in tak}, where(p, st[0]), 'the queue is taken and the pool stopped in different critical sections', p)
                    direct = p.res(tak[0].args[0]) == (s, P.list)
                    if direct:
                        ob('hard', False, where(p, tak[0]), 'the queue is not taken as a whole', p) if p.end == 'ret' and not emptied(p, (s, P.list)) else None
                lists = {p.res(e.args[0]) for e in p.ev if e.k == 'call' and '::List::' in e.sn and op(e) == 'PopFront'}
                drained(p, lists, 'Drop', ob, 'hard', S, tak)
    # workers
    for p, s, S in pool_entry(C, P, 'pool_loop'):
        if p.end not in ('ret', 'cut'):
            ob('loop', False, where(p), 'a worker ends by %s' % p.end, p)
            continue
        common(p, s, S)
        la = (s, P.list)
        ops = listops(p, la)
        pops = [e for e in ops if op(e) == 'PopFront']
        ob('loop', all(op(e) in ('Empty', 'PopFront') for e in ops), where(p), 'a worker changes the queue other than by popping its front', p)
        ncall = 0
        for e in pops:
            prev = [x for x in ops if x.i < e.i and S.sec[x.i] == S.sec[e.i]]
            ob('loop', prev and op(prev[-1]) == 'Empty' and p.decide_eq(prev[-1].ret, 0) is True, where(p, e), 'pops a queue that may be empty', p)
            job = base(p, e.ret)
            f = fates(p, job)
            last = e is pops[-1]
            if f or not (p.end == 'cut' and last):
                ob('loop', len(f) == 1 and f[0].m == 'Call', where(p, e), 'a popped job is finished %s' % ([x.m for x in f] or 'never'), p)
            if f:
                o, n = p.res(f[0].obj), p.res(e.ret)
                ob('loop', n[1] - o[1] == P.node, where(p, f[0]), 'the job is called through a wrong pointer', p)
                ob('loop', not touches(p, job, f[0].i), where(p, f[0]), 'the job is used after it was called', p)
        fs = [e for e in p.ev if e.k == 'vcall' and e.m in ('Call', 'Drop')]
        ob('loop', all(any(base(p, e.obj) == base(p, x.ret) for x in pops) for e in fs), where(p), 'a job is finished that was not popped', p)
        cw = list(counts(p, s, S))
        decs_ = []
        for e in cw:
            ld = [x for x in p.ev if x.k == 'ld' and x.i < e.i and loc_eq(p, x.addr, (s, P.count)) and S.sec[x.i] == S.sec[e.i]]
            v, l = p.res(e.val), p.res(ld[-1].val) if ld else None
            if issym(v) and issym(l) and v[0] == l[0]:
                d = (v[1] - l[1]) & M64
                ob('loop', d == (-P.k) & M64, where(p, e), 'the job counter is changed by %d' % (d if d < 1 << 63 else d - (1 << 64)), p)
                decs_.append(e)
        evs = sorted([(e.i, 'call') for e in fs] + [(e.i, 'dec') for e in decs_])
        bal = 0
        for i, kd in evs:
            bal += 1 if kd == 'call' else -1
            ob('loop', bal in (0, 1), where(p), 'jobs are uncounted before they ran or too often', p)
        if p.end == 'ret':
            ob('loop', bal == 0, where(p), 'a finished job stays counted', p)
        # decisions
        for e in p.ev:
            if e.k == 'call' and e.d.get('wait'):
                sec = S.sec[e.i]
                o = [x for x in ops if x.i < e.i and S.sec[x.i] == sec]
                lds = [x for x in p.ev if x.k == 'ld' and x.i < e.i and loc_eq(p, x.addr, (s, P.count)) and S.sec[x.i] == sec]
                ob('exit', o and op(o[-1]) == 'Empty' and p.decide_eq(o[-1].ret, 0) is False, where(p, e), 'sleeps although the queue may hold jobs', p)
                # a counter written in this section supersedes what was read before
                cur = curcount(p, s, P, e, S)
                ob('exit', cur is not None and P.bit(p, cur, P.stop) is False, where(p, e), 'sleeps although the pool may be stopped', p)
                if cur is not None:
                    nj, wt = P.nojobs(p, cur), P.bit(p, cur, P.want)
                    ob('exit', nj is False or wt is False, where(p, e), 'sleeps although a soft stop may be due', p)
        if p.end == 'ret':
            sec = max(S.sec.values())
            o = [x for x in ops if S.sec[x.i] == sec]
            ob('exit', o and op(o[-1]) == 'Empty' and p.decide_eq(o[-1].ret, 0) is False, where(p), 'a worker leaves although the queue may hold jobs', p)
            un = [e for e in p.ev if e.k == 'call' and e.sn == 'pthread_mutex_unlock' and S.sec[e.i] == sec]
            cur = curcount(p, s, P, un[-1], S) if un else None
            ob('exit', cur is not None and P.bit(p, cur, P.stop) is True, where(p), 'a worker leaves although the pool is not stopped', p)
            st = [e for e in cw if setsbit(p, e, P.stop)]
            if st and issym(p.res(st[-1].val)):
                ld = [x for x in p.ev if x.k == 'ld' and x.i < st[-1].i and loc_eq(p, x.addr, (s, P.count)) and S.sec[x.i] == S.sec[st[-1].i]]
                if not any(P.bit(p, x.val, P.stop) is True for x in ld):
                    ob('exit', any(P.nojobs(p, x.val) is True for x in ld) and any(P.bit(p, x.val, P.want) is True for x in ld), where(p, st[-1]), 'a worker stops the pool without a soft stop or with jobs left', p)
    # Wait / start
    if 'wait' in R:
        n = 0
        for p in C.paths('pool_wait', opaque=LISTOP):
            if p.end != 'ret':
                continue
            s = base(p, p.args[0])
            j = [e for e in p.ev if e.k == 'call' and e.sn == 'std::thread::join']
            addrs = [p.res(e.args[0]) for e in j]
            lds = [p.res(e.val) for e in p.ev if e.k == 'ld' and base(p, e.addr) == s and issym(p.res(e.val))]
            if addrs:
                lo = addrs[0]
                ok = len(set(addrs)) == len(addrs) and all(issym(a) and a[0] == lo[0] for a in addrs)
                offs = sorted(a[1] - lo[1] for a in addrs)
                ok = ok and offs == list(range(0, 8 * len(addrs), 8)) and any(l == (lo[0], lo[1] + offs[0]) for l in lds)
                ok = ok and any(p.decide_eq(l, (lo[0], lo[1] + 8 * len(addrs))) is True for l in lds)
                ob('wait', ok, where(p, j[0]), 'Wait does not join every worker', p)
                n += 1
            else:
                ok = any(p.decide_eq(a, b) is True for i, a in enumerate(lds) for b in lds[i + 1:])
                ob('wait', ok, where(p), 'Wait returns without joining although there may be workers', p)
        ob('wait', n > 0, 'pool_wait', 'Wait joins nothing')
        threads(chk, C, ob)
    return P


def curcount(p, s, P, upto, S):
    """value of the counter just before event `upto` of the same critical section"""
    v = None
    for x in p.ev:
        if x.i >= upto.i:
            break
        if x.k in ('ld', 'st') and S.sec[x.i] == S.sec[upto.i] and loc_eq(p, x.addr, (s, P.count)):
            v = x.val
    return v


def emptied(p, a):
    o = [e for e in p.ev if e.k == 'call' and '::List::Empty' in e.sn and p.res(e.args[0]) == a]
    return bool(o) and p.decide_eq(o[-1].ret, 0) is False


def drained(p, lists, fate, ob, k, S, tak):
    for a in lists:
        ops = [e for e in p.ev if e.k == 'call' and '::List::' in e.sn and p.res(e.args[0]) == a and e.sn.split('::')[-1] in ('Empty', 'PopFront')]
        for i, e in enumerate(ops):
            if e.sn.endswith('PopFront'):
                ob(k, i and ops[i - 1].sn.endswith('Empty') and p.decide_eq(ops[i - 1].ret, 0) is True, where(p, e), 'pops a list that may be empty', p)
                f = fates(p, base(p, e.ret))
                if f or p.end == 'ret':
                    ob(k, len(f) == 1 and f[0].m == fate, where(p, e), 'a taken job is finished %s' % ([x.m for x in f] or 'never'), p)
                    if f:
                        ob(k, not touches(p, base(p, e.ret), f[0].i), where(p, f[0]), 'the job is used after it was finished', p)
        if p.end == 'ret':
            ob(k, emptied(p, a), where(p), 'a taken job may be left unfinished', p)
    if not lists and p.end == 'ret':
        dst = [p.res(e.args[0]) for e in tak]
        ob(k, any(emptied(p, a) for a in dst), where(p), 'the taken jobs are never finished', p)


def threads(chk, C, ob):
    m = C.m
    n = 0
    for p in C.paths('pool_make', opaque=LISTOP):
        if p.end != 'ret':
            continue
        pool = [e for e in p.ev if e.k == 'new']
        b = base(p, pool[0].obj) if pool else None
        st = [e for e in p.ev if e.k == 'call' and e.sn == 'std::thread::_M_start_thread']
        want = p.decide_eq(p.args[0], len(st))
        ob('wait', want is True, where(p), 'the number of started workers differs from the number requested', p)
        for e in st:
            # the state object handed to the thread holds the pool
            news = [x for x in p.ev if x.k == 'new' and x.i < e.i]
            so = base(p, news[-1].obj)
            held = [p.res(v) for o, (sz, v) in p.st.mem.get(so, {}).items() if sz == 8]
            n += 1
    ob('wait', n > 0, 'pool_make', 'no worker thread is ever started')
    runs = [f for f in m.fns.values() if f.blocks and f.sn.startswith('std::thread::_State_impl') and f.sn.endswith('::_M_run') and 'FairThreadPool' in f.dn]
    if not runs:
        raise AnalysisError('the worker thread body of FairThreadPool was not found')
    for f in runs:
        for p in C.paths(f, opaque=lambda g: g.sn == 'yaclib::FairThreadPool::Loop'):
            c = [e for e in p.ev if e.k == 'call' and e.sn == 'yaclib::FairThreadPool::Loop']
            if p.end == 'ret':
                ob('wait', len(c) == 1, where(p), 'a worker thread runs Loop %d times' % len(c), p)


# ---------------------------------------------------------------- queue, manual, inline

LISTS = {'list_fifo': ('abcba', '1011'), 'list_move': ('abcab', '10111'), 'list_front': ('bac', '1')}


def list_rules(chk, C, pid):
    r = chk.rule(pid + '.list', 'the intrusive queue pops jobs in push order, reports emptiness exactly, and moves as a whole')
    for n, (order, emp) in LISTS.items():
        for p in C.paths(n):
            if p.end != 'ret':
                chk.ob(r, False, where(p), 'ends by %s' % p.end, p)
                continue
            a = {c: p.res(p.args[i]) for i, c in enumerate('abc')}
            out, em = p.res(p.args[3]), p.res(p.args[4])
            got = [p.res(p.st.mem[out[0]][8 * i][1]) if 8 * i in p.st.mem.get(out[0], {}) else None for i in range(len(order))]
            chk.ob(r, got == [a[c] for c in order], where(p), 'pops %s, expected %s' % (''.join(next((c for c in 'abc' if a[c] == g), '?') for g in got), order), p)
            ge = [p.res(p.st.mem[em[0]][i][1]) if i in p.st.mem.get(em[0], {}) else None for i in range(len(emp))]
            chk.ob(r, [g is not None and type(g) is int and g & 1 for g in ge] == [int(c) for c in emp], where(p), 'Empty() answers %s, expected %s' % (ge, emp), p)


def simple_rules(chk, C, pid):
    r = chk.rule(pid + '.inline', 'an inline executor finishes the job at once: Call, or Drop when stopped')
    for n, m in (('inline_call', 'Call'), ('inline_drop', 'Drop')):
        for p in C.paths(n):
            f = fates(p, base(p, p.args[0]))
            chk.ob(r, p.end == 'ret' and [e.m for e in f] == [m] and not touches(p, base(p, p.args[0]), f[0].i), where(p), 'job finished by %s' % [e.m for e in f], p)
    r = chk.rule(pid + '.manual', 'ManualExecutor queues at the back; Drain Calls every queued job once, in order')
    la = None
    for p in C.paths('manual_submit', opaque=LISTOP):
        o = [e for e in p.ev if e.k == 'call' and '::List::' in e.sn]
        job = base(p, p.args[1])
        ok = p.end == 'ret' and len(o) == 1 and o[0].sn.endswith('PushBack') and base(p, o[0].args[1]) == job and not fates(p, job)
        chk.ob(r, ok, where(p), 'Submit does not queue the job once at the back', p)
        if ok:
            la, node = p.res(o[0].args[0])[1], p.res(o[0].args[1])[1]
    if la is None:
        return
    for p in C.paths('manual_drain', opaque=LISTOP):
        a = (base(p, p.args[0]), la)
        if p.end not in ('ret', 'cut'):
            chk.ob(r, False, where(p), 'Drain ends by %s' % p.end, p)
            continue
        ops = [e for e in p.ev if e.k == 'call' and '::List::' in e.sn]
        pops = [e for e in ops if e.sn.endswith('PopFront')]
        for e in pops:
            i = ops.index(e)
            chk.ob(r, i and ops[i - 1].sn.endswith('Empty') and p.decide_eq(ops[i - 1].ret, 0) is True, where(p, e), 'pops a queue that may be empty', p)
            f = fates(p, base(p, e.ret))
            if f or p.end == 'ret':
                chk.ob(r, [x.m for x in f] == ['Call'] and p.res(e.ret)[1] - p.res(f[0].obj)[1] == node, where(p, e), 'a popped job is finished %s' % [x.m for x in f], p)
        calls_ = [base(p, e.obj) for e in p.ev if e.k == 'vcall' and e.m in ('Call', 'Drop')]
        chk.ob(r, calls_ == [base(p, e.ret) for e in pops][:len(calls_)], where(p), 'jobs do not run in queue order', p)
        if p.end == 'ret':
            chk.ob(r, emptied(p, a) and p.res(p.ret) == len(pops), where(p), 'Drain leaves jobs behind or miscounts them', p)


def c07(chk, tier):
    C = XCtx(chk, 'exe.cpp')
    strand_rules(chk, C, 'C07')


def c08(chk, tier):
    C = XCtx(chk, 'exe.cpp')
    pool_rules(chk, C, 'C08')
    list_rules(chk, C, 'C08')
