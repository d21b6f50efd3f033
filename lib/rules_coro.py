"""C13: coroutines.  Real coroutine bodies around every kind of co_await, lowered by the compiler's coroutine passes, are
driven through every completion order of what they await, every answer of the executors (Call or Drop) and every fate of
the returned handle."""
from rules_when import *
from rules_when import fire as _fire, preop as _preop

PASSES = 'coro-early,cgscc(coro-split),coro-cleanup,function(sroa,instsimplify),globaldce'


def m_reg(self, st, f, ins, fn, args):
    """registration on an awaited state (a symbolic one); on the coroutine's own state the real code is analysed"""
    a = self.resolve(st, args[0])
    if issym(a) and self.bases[a[0]].kind == 'new':
        return NOMODEL
    b = self.resolve(st, args[1])
    if issym(b) and self.bases[b[0]].kind == 'global':
        # a handle that was never awaited is given up: the state is consumed by the library's own drop callback
        s2 = st.fork()
        s2.forks += 1
        out = []
        for v, s in ((1, st), (0, s2)):
            self.event(s, 'call', {'sn': fn.sn, 'name': fn.name, 'args': [a, b], 'ret': v, '_l': ins.get('l', 0)})
            self.finish_call(s, ins, v)
            out.append(s)
        return out
    return m_register(self, st, f, ins, fn, args)


def v_submit(self, st, f, ins, args, ex):
    k = len(st.ev) if hasattr(st, 'ev') else None
    job = self.resolve(st, args[-1])
    i = st.nev
    r = self.opaque_call(st, f, ins, None, args, kind='vcall', extra=ex, may_throw=False)
    st.user['jobs'] = st.user.get('jobs', ()) + ((job, ex['obj'], i),)
    return r


def v_next(self, st, f, ins, args, ex):
    """the head of a pipeline is started on behalf of the awaiting coroutine: from now on the pipeline may complete"""
    for i, (core, cid) in st.user.get('handles', {}).items():
        v = st.mem.get(core, {}).get(24)
        v = self.resolve(st, v[1]) if v else None
        if v is not None and issym(v) and self.bases[v[0]].kind == 'new' and not any(x[0] == core for x in st.user.get('att', ())) and core not in st.user.get('let', ()):
            self.event(st, 'letin', {'core': core, '_l': ins.get('l', 0)})
            st.user['att'] = st.user.get('att', ()) + ((core, v),)
            st.user['let'] = st.user.get('let', ()) + (core,)
    return self.opaque_call(st, f, ins, None, args, kind='vcall', extra=ex, may_throw=False)


class CoCtx(WhenCtx):
    def __init__(self, chk, **kw):
        WhenCtx.__init__(self, chk, 'coro.cpp', passes=PASSES, **kw)

    def engine(self, **opts):
        e = WhenCtx.engine(self, **opts)
        e.vmodels = dict(e.vmodels, Submit=v_submit, Next=v_next, Here=v_next)
        for f in self.m.fns.values():
            if REG(f):
                e.models[f.sn] = m_reg
        old = e.indirect

        def indirect(st, f, ins, t):
            if issym(t) and len(ins['a']) == 1:
                bo = e.bases[t[0]]
                a = e.resolve(st, e.val(st, f.r, ins['a'][0]))
                if issym(a) and e.bases[a[0]].kind == 'global' and 'noop' in str(e.bases[a[0]].info):
                    return e.finish_call(st, ins)
                if bo.kind == 'load' and bo.info and issym(a) and bo.info[0] == a[0] and bo.info[1] == a[1]:
                    return e.opaque_call(st, f, ins, None, [a], kind='resume', extra={'h': a}, may_throw=False)
            return old(st, f, ins, t)
        e.indirect = indirect
        e.snap_on = e.snap_on | frozenset(['std::rethrow_exception'])
        return e


VALUED = ('curf', 'fut', 'futon', 'sfut', 'sref', 'task', 'tfut', 'tsfut', 'ttask', 'hfut', 'hsfut')
CLIENT = ('probe::mark', 'probe::use', 'probe::make', 'probe::exe')


class Co:
    def __init__(self, name):
        self.name = name
        self.array = bool(re.search(r'n$|it$', name)) and bool(re.match(r'co_(awt|ste|aon)', name)) and name not in ('co_awt1on',)
        self.N = 2
        self.copy = False
        k = self.kind = name[3:]
        self.valued = k in VALUED
        self.await_on = k.startswith('aon')
        self.sticky = k.startswith('ste')
        self.awaits = self.valued or self.await_on or self.sticky or k.startswith('awt') or k == 'cura'
        self.hops = 2 if k in ('yld', 'kyld', 'ycur') else 1 if k in ('on', 'ton', 'hon', 'cur') or self.await_on or self.sticky else 0
        self.task = 'task' in k
        self.moved = self.valued and 's' not in k.replace('task', '')
        self.inherits = k in ('curf', 'cura')


def lazy(C, n):
    return C.m.fns[n].pt[0] == '_ZTSN6yaclib4TaskIN5probe1VENS1_2ErEEE' or 'Task' in str(C.m.fns[n].pt[0])


def job_fn(p, a, m):
    v = rd(p, p.st.mem, a[0], a[1])
    if v is None or not issym(v):
        raise AnalysisError('a submitted job has no known type')
    fn = p.eng.m.vtslots(p.eng.bases[v[0]].info, v[1]).get(m)
    if fn is None:
        raise AnalysisError('no %s of a submitted job' % m)
    return fn


def co_histories(C, n, m='Here', overlap=True, owner=None, **opts):
    """(path, how) of every complete history; owner: None | 'drop' (the handle is given up at once) | 'callback'"""
    hs = init_handles()

    def begin(eng, st, vals):
        hs(eng, st, vals)
        if not overlap:
            st.user['noint'] = True
    own = None
    t = str(C.m.fns[n].pt[0])
    for k, q in (('f', r'6FutureIN5probe1V'), ('fv', r'6FutureIv'), ('s', r'12SharedFutureIN5'), ('sv', r'12SharedFutureIv'), ('t', r'4TaskIN5'), ('tv', r'4TaskIv')):
        if re.search(r'_ZTSN6yaclib' + q, t):
            own = 'own_' + k
    if own is None:
        raise AnalysisError('unknown result type of %s: %s' % (n, t))
    work = []
    for p in C.paths(n, init=begin, key='co', **opts):
        p.st.user['sret'] = p.args[0]
        p.frame = next((base(p, e.obj) for e in p.ev if e.k == 'new'), None)
        work.append((p, ()))
    while work:
        p, how = work.pop()
        if p.end != 'ret' or p.frame is None:
            yield p, how
            continue
        todo = []

        def go(fn, vals, init, tag, cont=False):
            for q in C.resume(p, fn, vals, init):
                q.frame = p.frame
                work.append((q, how + ((tag,) if tag else ())))
        u = p.st.user
        frame = p.frame
        prom = (frame, 16)
        # symmetric transfer: the handle returned by Next is resumed by the same thread
        if p.ret is not None and u.get('sym') is not None:
            r = p.res(p.ret)
            tag = u['sym']
            if issym(r) and p.eng.bases[r[0]].kind == 'new':
                fp = rd(p, p.st.mem, r[0], r[1])
                if fp is None or not issym(fp) or p.eng.bases[fp[0]].info not in p.eng.m.fns:
                    raise AnalysisError('a returned coroutine handle cannot be resumed %s %s %s' % (p.fmt(r), p.fmt(fp) if fp is not None else None, how))

                def init(eng, st, vals, tag=tag):
                    st.user.pop('sym', None)
                    eng.event(st, 'cont', {'core': tag})
                    eng.top(st).mark = tag
                go(p.eng.bases[fp[0]].info, [r], init, None)
                continue
        first = not how
        if first and lazy(C, n):
            if u.get('jobs') or u.get('att') or any(e.k == 'call' and e.sn in ('probe::mark', 'probe::use', 'probe::make') for e in p.ev):
                yield p, ('early',)
                continue
            for mm in ('Call', 'Drop', 'Here', 'Next'):
                fn = job_fn(p, prom, mm)
                vals = [prom]

                def init(eng, st, vals, mm=mm):
                    eng.event(st, 'cont', {'core': 0})
                    eng.top(st).mark = 0
                    if mm == 'Next':
                        st.user['sym'] = 0
                if mm in ('Here', 'Next'):
                    c = p.eng.sym('arg', 'caller')
                    p.st.user['caller'] = c[0]
                    nonnull(p.eng, p.st, c)
                    vals.append(c)
                go(fn, vals, init, mm)
            continue
        if owner and not u.get('owned') and not published(p, frame):
            if owner == 'drop':
                def init(eng, st, vals):
                    st.user['owned'] = 'drop'
                go(own, [u['sret']], init, 'owner drops')
            else:
                s = p.st.fork()
                x = p.eng.sym('arg', 'consumer')
                nonnull(p.eng, s, x)
                p.eng.store(s, (frame, 40), 8, x)
                p.eng.store(s, (x[0], 8), 8, 0)
                s.user['owned'] = x[0]
                q = p
                q.st = s
                work.append((q, how + ('callback',)))
            continue
        for core, cb in u.get('att', ()):
            for mm in ('Here', 'Next') if m == 'both' else (m,):
                v = rd(p, p.st.mem, cb[0], cb[1])
                if v is None or not issym(v):
                    raise AnalysisError('an awaiting callback has no known type: %s %s' % (how, chr(10).join(trace(p)[-25:])))
                fn = p.eng.m.vtslots(p.eng.bases[v[0]].info, v[1]).get(mm)
                if fn is None:
                    raise AnalysisError('no %s of an awaiting callback' % mm)

                def init(eng, st, vals, core=core, cb=cb, mm=mm):
                    _fire(eng, st, core, cb, mm)
                    eng.top(st).mark = core
                    if mm == 'Next':
                        st.user['sym'] = core
                go(fn, [cb, (core, 0)], init, mm)
                todo.append(1)
        for j in u.get('jobs', ()):
            for mm in ('Call', 'Drop'):
                def init(eng, st, vals, j=j, mm=mm):
                    st.user['jobs'] = tuple(x for x in st.user['jobs'] if x != j)
                    eng.event(st, 'fire', {'core': ('job', j[2]), 'how': mm})
                    eng.top(st).mark = ('job', j[2])
                go(job_fn(p, j[0], mm), [j[0]], init, mm)
                todo.append(1)
        if todo:
            continue
        if published(p, frame) and u.get('owned') != 'drop' and not u.get('end'):
            snap = (p.st.mem, len(p.ev))

            def init(eng, st, vals, snap=snap):
                st.user['end'] = snap
            go(own, [u['sret']], init, 'owner drops')
            continue
        yield p, how


# ---------------------------------------------------------------- the oracle

def first(p):
    q = p
    while getattr(q, 'prev', None) is not None:
        q = q.prev
    return q


def full_seen(p, c):
    """events that tell the coroutine, with acquire, that state c holds its result"""
    shared = is_shared(p, c)
    out = []
    for e in p.ev:
        if e.k in ('ald', 'aload') and same_base(p, e.addr, c) and is_cb(p, e.addr) and has_acq(e.d.get('ord') or ''):
            if p.decide_eq(e.val, M64) is True or not shared and p.decide_eq(e.val, 0) is False:
                out.append(e)
        elif e.k == 'call' and e.sn == 'yaclib::detail::BaseCore::SetCallbackImpl' and base(p, e.args[0]) == c and e.ret == 0:
            out.append(e)
        elif e.k == 'fire' and e.core == c:
            out.append(e)
    return out


def actors(p):
    """event -> the completion, job or thread that executes it"""
    st, out = [0], {}
    for e in p.ev:
        if e.k in ('fire', 'cont'):
            st.append(e.core)
        elif e.k == 'mark' and len(st) > 1 and e.tag == st[-1]:
            st.pop()
        else:
            out[e.i] = st[-1]
    return out


def awaited(p, n):
    if not n.array:
        h = p.st.user['handles']
        return [h[i][0] for i in sorted(h)]
    a, out = p.entry0_args[1], []
    h = p.st.user.get('handles', {})
    for k in range(n.N):
        v = p.st.user.get(('init', a[0], a[1] + 8 * k))
        if k == 0 and v is None and 0 in h:
            v = (h[0][0], 0)
        v = p.res(v) if v is not None else None
        out.append(v[0] if issym(v) else None)
    return out


def executor_arg(C, p, n):
    for t, a in zip(C.m.fns[n.name].pt[1:], p.entry0_args[1:]):
        if t == '*_ZTSN6yaclib9IExecutorE':
            return a
    return None


def co_judge(C, p, how, n, owner):
    if p.end == 'cut':
        return None
    bad = []
    if p.end != 'ret':
        return [('once', 'a history ends by %s' % p.end, None)]
    if how == ('early',):
        return [('once', 'a lazy coroutine runs before it is started', None)]
    unmark(p)
    for e in p.ev:
        if e.k in BAD:
            bad.append(('frame', e.k, e))
        if e.k == 'icall':
            raise AnalysisError('%s: unknown indirect call' % n.name)
    try:
        return bad + co_judge_all(C, p, how, n, owner)
    except (TypeError, KeyError, IndexError, AttributeError):
        if not bad:
            raise
        return bad


def co_judge_all(C, p, how, n, owner):
    bad = []
    b = bad.append
    u = p.st.user
    frame = p.frame
    prom = (frame, 16)
    O = Objs(p)
    who = actors(p)
    for msg, e in O.finish():
        b(('frame', msg, e))
    calls = [e for e in p.ev if e.k == 'call' and e.sn in CLIENT]
    threw = {e.src.i for e in p.ev if e.k == 'thrown' and e.src is not None}
    tag = lambda e: p.res(e.args[1 if e.sret else 0])
    m1 = [e for e in calls if e.sn == 'probe::mark' and tag(e) == 1]
    m2 = [e for e in calls if e.sn != 'probe::exe' and tag(e) == 2]
    exes = [e for e in calls if e.sn == 'probe::exe']
    fires = [e for e in p.ev if e.k == 'fire']
    dropped = [e for e in fires if e.d.get('how') == 'Drop']
    unstarted = lazy(C, n.name) and how[:1] == ('Drop',)
    failed = [e for e in calls if e.i in threw]
    cs = awaited(p, n) if n.awaits else []
    if n.array and not [e for e in calls if tag(e) == 2]:
        cs = [c for c in cs if c is not None]    # the co_await may not have been reached
    elif n.awaits and (None in cs or len(cs) != (2 if n.array or re.search(r'(awt|aon|ste)(2|us|ss|c2)$', n.kind) else 1)):
        raise AnalysisError('%s: the awaited states are not known' % n.name)
    # completion of the coroutine
    pub = published(p, frame)
    if len(pub) != 1:
        b(('once', 'the coroutine completes %d times' % len(pub), pub[1] if len(pub) > 1 else None))
        return bad
    pub = pub[0]
    # what runs
    if unstarted:
        if calls:
            b(('once', 'a dropped coroutine that never started runs', calls[0]))
    elif len(m1) != 1:
        b(('once', 'the body runs %d times up to the co_await' % len(m1), None))
        return bad
    aw = None
    if n.valued:
        ro = ro_of(p, cs[0])
        io = idx_off(p, cs[0], ro)
        aw = initial(p, cs[0], ro, io)
        u0 = aw[0]
    else:
        u0 = 0
    has2 = n.kind not in ('rexc', 'rstop', 'rerr', 'runit')
    normal = not failed and not dropped and not unstarted
    passed = not [e for e in failed if e in m1 or e in exes] and not dropped and not unstarted and u0 == 0
    if passed and type(u0) is not int:
        b(('what', 'resumes without looking at the awaited result', None))
    if len(m2) != (1 if has2 and passed else 0):
        b(('once', 'the body is resumed %d times after the co_await instead of %d' % (len(m2), 1 if has2 and passed else 0), m2[-1] if m2 else None))
        return bad
    for e in m2 + exes:
        if m1 and e.i < m1[0].i:
            b(('once', 'the body runs out of order', e))
    # only after what it awaited has happened
    done = {}
    for k, c in enumerate(cs):
        s = full_seen(p, c)
        done[c] = s[0].i if s else None
        if m2 and (not s or s[0].i > m2[0].i):
            b(('after', 'the coroutine is resumed although what it awaits (%d) has not happened' % k, m2[0]))
        t = [e for e in p.ev if e.k in ('ld', 'st') and same_base(p, e.addr, c) and '_result' in fpath(p, e.addr)]
        if t and (not s or s[0].i > t[0].i):
            b(('after', 'the awaited result is read before it is there', t[0]))
        regs = [e for e in p.ev if e.k == 'call' and e.sn == 'yaclib::detail::BaseCore::SetCallbackImpl' and base(p, e.args[0]) == c]
        own = [e for e in regs if p.eng.bases[p.res(e.args[1])[0]].kind != 'global']
        if len(own) > 1:
            b(('once', 'input %d is watched %d times' % (k, len(own)), own[1]))
    # where it runs
    e0 = executor_arg(C, p, n)
    subs = [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit']
    mine = [e for e in subs if not issym(p.res(e.args[-1])) or p.res(e.args[-1])[0] == frame]
    for e in mine:
        if p.res(e.args[-1]) != prom:
            b(('where', 'something else than the coroutine is submitted', e))
        if e0 is None or not same(p, e.obj, e0[0]):
            b(('where', 'the coroutine is submitted to an executor the awaiter does not name', e))
    reached = bool(m1) and m1[0].i not in threw
    need = n.hops if reached else 0
    inl = e0 is not None and issym(p.res(e0)) and p.eng.bases[p.res(e0)[0]].kind == 'global'
    if inl:
        need = 0    # the named executor is the inline one: nothing is queued
    jobs = [e for e in fires if type(e.core) is tuple]
    if n.hops == 2 and [e for e in dropped if e.core == ('job', mine[0].i if mine else -1)]:
        need = 1
    if n.sticky and reached and not inl:
        susp = m2 and who[m2[0].i] != ('job', mine[0].i) if mine else False
        later = [e for e in mine[1:]]
        if len(mine) not in (1, 2) or m2 and len(mine) != (2 if susp else 1):
            b(('where', 'the coroutine is submitted %d times' % len(mine), mine[-1] if mine else None))
        for e in later:
            if [c for c in cs if done[c] is None or done[c] > e.i]:
                b(('after', 'the coroutine is submitted although what it awaits has not happened', e))
    elif len(mine) != need:
        b(('where', 'the coroutine is submitted %d times instead of %d' % (len(mine), need), mine[-1] if mine else None))
    if n.await_on:
        for e in mine:
            if [c for c in cs if done[c] is None or done[c] > e.i]:
                b(('after', 'the coroutine is submitted although what it awaits has not happened', e))
    if m1:
        for e in mine:
            if e.i < m1[0].i:
                b(('where', 'the coroutine is submitted before the co_await', e))
    if n.hops and m2 and not inl:
        a = who[m2[0].i]
        if type(a) is not tuple or a[1] != mine[-1].i:
            b(('where', 'the coroutine is resumed outside the executor the awaiter names', m2[0]))
    for e in exes if n.inherits else []:
        # resumed in place by the completion: it goes on where the awaited state says
        v = p.res(e.args[0])
        if [x for x in fires if x.core == cs[0] and x.i < e.i]:
            x = p.st.user.get(('init', cs[0], 16))
            ok = x is not None and v == p.res(x)
        else:
            ok = issym(v) and p.eng.bases[v[0]].kind == 'global'
        if not ok:
            b(('where', 'CurrentExecutor is not the executor the coroutine runs on', e))
    for e in exes if not n.inherits else []:
        if e0 is None or p.res(e.args[0]) != p.res(e0):
            b(('where', 'CurrentExecutor is not the executor the coroutine runs on', e))
    # what the awaiter gives
    if n.valued and m2 and m2[0].sn == 'probe::use':
        x = p.res(m2[0].args[-1])
        t = O_at(p, m2[0], x)
        if t != ('init', (cs[0], ro)):
            b(('what', 'the value of the co_await is not the awaited value', m2[0]))
    if n.valued and not n.moved:
        s = O.st.get((cs[0], ro))
        if s and s[0] != 'live':
            b(('what', 'the value of a shared state is moved or destroyed', None))
    # output
    snap = u.get('end')
    if snap:
        mem = snap[0]
        ro2 = ro_of(p, frame)
        io2 = idx_off(p, frame, ro2)
        OO = Objs(_Cut(p, snap[1]))
        oi, pay = content(p, mem, lambda a: obj_tok(OO, a), frame, ro2, io2)
        b_out(C, p, n, bad, oi, pay, failed, dropped or unstarted, aw, m2, mem, pub)
    # locals and memory
    gc = [x for x in O.constructed if _is(x[2], 'probe::Gd::Gd')]
    gd = [x for x in O.destroyed if _is(x[2], 'probe::Gd::~Gd')]
    want = 0 if unstarted else 1
    if len(gc) != want or len(gd) != want or want and (gc[0][0] != gd[0][0] or gc[0][2].i > m1[0].i):
        b(('frame', 'the locals of the coroutine are constructed %d times and destroyed %d times' % (len(gc), len(gd)), None))
    elif want and m2 and gd[0][2].i < m2[0].i:
        b(('frame', 'the locals of the coroutine are destroyed while it runs', gd[0][2]))
    news_ = [e for e in p.ev if e.k == 'new']
    frees = [base(p, e.obj) for e in p.ev if e.k == 'free']
    for e in news_:
        k = frees.count(base(p, e.obj))
        if k != 1:
            b(('frame', 'the frame is released %d times' % k, e))
    f = [e for e in p.ev if e.k == 'free' and base(p, e.obj) == frame]
    if f and f[0].i < pub.i:
        b(('frame', 'the frame is released before the coroutine completed', f[0]))
    if e0 is not None and len(incs(p, e0[0])) != len(decs(p, e0[0])):
        b(('own', 'references of the executor are not balanced', None))
    for k, c in enumerate(cs):
        d = len(decs(p, c)) - len(incs(p, c))
        kd = [e for e in p.ev if e.k == 'call' and e.sn == 'yaclib::detail::BaseCore::SetCallbackImpl' and base(p, e.args[0]) == c and e.ret and p.eng.bases[p.res(e.args[1])[0]].kind == 'global']
        kd += [e for e in p.ev if e.k == 'ast' and same_base(p, e.addr, c) and is_cb(p, e.addr) and issym(p.res(e.val)) and p.eng.bases[p.res(e.val)[0]].kind == 'global']
        if d + len(kd) != (1 if n.moved else 0):
            b(('own', 'awaited state %d is released %d times' % (k, d + len(kd)), None))
        fd = decs(p, c)
        if fd and m2 and n.moved and not incs(p, c) and fd[0].i < (done[c] or 0):
            b(('own', 'awaited state %d is released before it completed' % k, fd[0]))
    if not n.moved and n.awaits:
        for k, c in enumerate(cs):
            a = p.entry0_args[1] if n.array else p.entry0_args[1 + k]
            v = rd(p, p.st.mem, a[0], a[1] + (8 * k if n.array else 0))
            if v is not None and not same(p, v, c):
                b(('own', 'awaited handle %d is no longer valid' % k, None))
    # the consumer's callback
    if owner == 'callback' and u.get('owned'):
        x = u['owned']
        r = [e for e in p.ev if e.k == 'vcall' and e.m in ('Here', 'Next') and same(p, e.obj, x)]
        if len(r) != 1:
            b(('once', 'the callback of the coroutine is run %d times' % len(r), r[1] if len(r) > 1 else None))
        else:
            if r[0].i < pub.i:
                b(('after', 'the callback of the coroutine is run before it completed', r[0]))
            if p.res(r[0].args[-1]) != prom:
                b(('once', 'the callback of the coroutine is run with something else', r[0]))
            if r[0].m == 'Next':
                s = [e for e in p.ev if e.k == 'resume' and p.res(e.h) == p.res(r[0].ret)]
                if len(s) != 1:
                    b(('once', 'the handle the callback returned is resumed %d times' % len(s), r[0]))
    regs = [e for e in p.ev if e.k == 'call' and e.sn == 'yaclib::detail::BaseCore::SetCallbackImpl' and p.eng.bases[p.res(e.args[1])[0]].kind != 'global']
    for e, e2 in races(p, regs)[:1]:
        b(('race', 'not ordered after the access at %s' % e2.where(), e))
    return bad


class _Cut:
    """the beginning of a path"""

    def __init__(self, p, n):
        self.ev, self.eng, self.st, self.end = p.ev[:n], p.eng, p.st, 'ret'
        self.res, self.fmt, self.loc = p.res, p.fmt, p.loc


def _is(e, sn):
    return e.k == 'call' and e.sn == sn


def O_at(p, e, x):
    """token of the object at address x when event e happens"""
    o = Objs(_Cut(p, p.ev.index(e)))
    return obj_tok(o, x)


def b_out(C, p, n, bad, oi, pay, failed, dropped, aw, m2, mem, pub):
    b = bad.append
    args = p.entry0_args
    cur = [e for e in p.ev if e.k == 'call' and e.sn == 'std::current_exception' and e.i < pub.i]

    def exception():
        """the stored exception is the one that was in flight"""
        if oi != 1 or not cur:
            return False
        raw = mem.get(p.frame, {}).get(ro_of(p, p.frame))
        if raw is None or not issym(raw[1]):
            return False
        bo = p.eng.bases[raw[1][0]]
        src = p.res(cur[-1].args[0])
        return bo.kind in ('load', 'undef') and bo.info and (bo.info[0], bo.info[1]) == tuple(src)

    if dropped:
        e = next((e for e in p.ev if pay and pay[0] == 'val' and e.i == pay[1]), None)
        if oi != 2 or e is None or 'StopTag' not in p.eng.m.fns[e.name].dn:
            b(('what', 'a dropped coroutine does not complete with StopError', pub))
        return
    if failed:
        c = [e for e in p.ev if e.k == 'catch' and e.i < pub.i]
        if not exception() or not c:
            b(('what', 'an exception that leaves the body does not become the result', pub))
        return
    if aw is not None and aw[0] == 1:
        r = [e for e in p.ev if e.k == 'call' and e.sn == 'std::rethrow_exception']
        x = p.res(r[0].args[0]) if len(r) == 1 else None
        if x is None or aw[1][1] is None or rd(p, r[0].snap, x[0], x[1]) != aw[1][1]:
            b(('what', 'the awaited exception is not rethrown', pub))
        elif not exception():
            b(('what', 'the awaited exception does not become the result', pub))
        return
    if aw is not None and aw[0] == 2:
        t = [e for e in p.ev if e.k == 'throw']
        ok = len(t) == 1 and 'ResultError' in str(p.eng.bases[p.res(t[0].ti)[0]].info)
        if ok:
            tb = base(p, t[0].obj)
            o = Objs(_Cut(p, p.ev.index(t[0])))
            ok = [tk for a, (s, tk) in o.st.items() if a[0] == tb] == [('init', (awaited(p, n)[0], ro_of(p, awaited(p, n)[0])))]
        if not ok:
            b(('what', 'the awaited error is not thrown', pub))
        elif not exception():
            b(('what', 'the awaited error does not become the result', pub))
        return
    k = n.kind
    if k == 'rexc':
        src = p.st.user.get(('init', args[1][0], args[1][1]))
        if oi != 1 or src is None or pay != p.res(src):
            b(('what', 'the returned exception is not the result', pub))
    elif k == 'rstop':
        e = next((e for e in p.ev if pay and pay[0] == 'val' and e.i == pay[1]), None)
        if oi != 2 or e is None or 'StopTag' not in p.eng.m.fns[e.name].dn:
            b(('what', 'the returned StopTag is not the result', pub))
    elif k == 'rerr':
        if oi != 2 or pay != ('init', (args[1][0], args[1][1])):
            b(('what', 'the returned error is not the result', pub))
    elif oi != 0:
        b(('what', 'a coroutine that returned a value does not complete with it', pub))
    elif m2 and m2[0].sn in ('probe::use', 'probe::make') and pay != ('result', m2[0].i):
        b(('what', 'the returned value is not the result', pub))


CO = {
    'once': 'the body runs once up to the co_await and once past it, the coroutine completes exactly once and its callback runs once',
    'after': 'it is resumed (and the awaited result read) only after everything it awaits has happened',
    'where': 'it is resumed where the awaiter says: on the named executor, on its own, or in place without a submit',
    'what': 'the awaited value is received or the failure rethrown; the outcome of the body, or StopError if it was dropped, is the result',
    'frame': 'the frame and the locals in it are destroyed exactly once, after completion',
    'own': 'handles that were moved in are released once, handles that were awaited in place stay valid, references are balanced',
    'race': 'every access of the frame is ordered with those of the completions, the executor and the owner of the handle',
}


def coro_rules(chk, C, pid, tier, cats=CO):
    rules = {c: chk.rule('%s.%s' % (pid, c), t) for c, t in cats.items()}
    names = sorted(n for n in C.m.fns if n.startswith('co_') and C.m.fns[n].blocks)
    if len(names) < 30:
        raise AnalysisError('coroutine entry points are missing')
    tasks = []
    for name in names:
        for m in ('Here', 'Next'):
            for owner in (None, 'callback') if lazy(C, name) else (None, 'drop', 'callback'):
                tasks.append((name, m, owner))

    def one(t):
        name, m, owner = t
        n = Co(name)
        k = 0
        for p, how in co_histories(C, name, m, True, owner, maxpaths=1000000):
            bad = co_judge(C, p, how, n, owner)
            if bad is None:
                continue
            k += 1
            got = {}
            for cat, msg, e in bad:
                got.setdefault(cat, (msg, e))
            for cat, rid in rules.items():
                if cat in got:
                    msg, e = got[cat]
                    chk.ob(rid, False, '%s (%s, %s)%s' % (name, m, '/'.join(how) or 'runs', ' at ' + e.where() if e is not None else ''), norm(msg), p)
                else:
                    chk.ob(rid, True, '')
        chk.ob(rules.get('once') or list(rules.values())[0], k > 0, name, 'no history completes')
    chk.parallel(tasks, one)


def c13(chk, tier):
    C = CoCtx(chk)
    coro_rules(chk, C, 'C13', tier)
