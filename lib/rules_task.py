"""Rules on contracts (AsyncContract/LazyContract), ready tasks and the operations of Task (probe core.cpp)."""
from rules_handle import *


def only_new(p, pat):
    ks = news(p, pat)
    return ks[0] if len(ks) == 1 else None


def fulfil_rule(chk, r, q, K, want=None, wantpay=None, since=0):
    """on path q, state K is published exactly once with the wanted result and its continuation run once"""
    pub = published(q, K, since)
    chk.ob(r, len(pub) == 1, q.entry, 'publishes its result %d times' % len(pub), q)
    if len(pub) != 1:
        return
    e = pub[0]
    order = e.so if e.k == 'cas' else e.d.get('ord', '')
    chk.ob(r, e.k != 'astore' and has_rel(order) and has_acq(order), '%s at %s' % (q.entry, e.where()), 'published with order %s' % order, q)
    o = Objs(q)
    ro = ro_of(q, K)
    io = idx_off(q, K, ro)
    i, pay = content(q, q.st.mem, lambda a: obj_token(o, a), K, ro, io)
    if want is not None:
        chk.ob(r, i == want, q.entry, 'the result is %s instead of %s' % (STN.get(i, i), STN.get(want)), q)
        if wantpay is not None:
            chk.ob(r, pay == wantpay, q.entry, 'the payload of the result is not the expected one', q)
    old = q.res(e.old) if e.k != 'cas' else q.res(e.exp)
    runs = [x for x in q.ev if x.i > e.i and x.k == 'vcall' and x.m in ('Here', 'Next')]
    retv = q.res(q.ret) if q.ret is not None else 0
    mine = len([x for x in runs if q.res(x.obj) == old and same(q, x.args[-1], K)]) + (issym(retv) and retv == old)
    if old == 0 or q.decide_eq(old, 0) is True:
        chk.ob(r, not runs, q.entry, 'runs something although nothing was registered', q)
    else:
        chk.ob(r, mine == 1, q.entry, 'the registered continuation is run %d times' % mine, q)


def contract_rules(chk, C, pid, entries=('async_on', 'async_inl', 'async_on_ref', 'lazy_on', 'lazy_inl', 'lazy_on_ref')):
    r = chk.rule(pid + '.contract.start', 'AsyncContract submits its state once to its executor; LazyContract starts nothing; the handle refers to the state')
    rc = chk.rule(pid + '.contract.call', 'the functor of a contract is moved out of the state, invoked exactly once with the promise of that state, and destroyed; the state is not used once the promise is gone')
    rd_ = chk.rule(pid + '.contract.drop', 'a dropped contract destroys its functor once and publishes StopError')
    rh = chk.rule(pid + '.contract.lazy', 'a lazily started contract submits itself once when it is reached')
    for n in entries:
        lazy = n.startswith('lazy')
        nn = 0
        for p in C.paths(n, init=init_handles(), key='h'):
            if p.end != 'ret' or any(x for x in p.args if issym(p.res(x)) and p.eng.bases[p.res(x)[0]].kind == 'global'):
                continue
            K = only_new(p, r'detail::PromiseCore<')
            if K is None:
                chk.ob(r, False, n, 'is not built from one state', p)
                continue
            nn += 1
            fn = C.m.fns[n]
            e_arg = [p.args[i] for i, t in enumerate(fn.pt[1:]) if t == '*_ZTSN6yaclib9IExecutorE']
            fn_arg = [p.args[i] for i, t in enumerate(fn.pt[1:]) if isinstance(t, str) and '5probe2FnI' in t][0]
            subs = [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit']
            ran = [e for e in p.ev if e.k == 'call' and e.sn == 'probe::Fn::operator()']
            out = p.args[-1]
            if not ran:
                chk.ob(r, rd(p, p.st.mem, out[0], out[1]) == (K, 0), n, 'the handle does not refer to the state', p)
            if lazy:
                chk.ob(r, not subs and not ran and not published(p, K), n, 'building a lazy contract starts it', p)
            elif e_arg:
                chk.ob(r, len(subs) == 1 and same(p, subs[0].args[1], K) and p.res(subs[0].obj) == p.res(e_arg[0]) and not ran, n, 'the state is not submitted exactly once to the executor', p)
            if e_arg:
                chk.ob(r, kexec(p, K) == p.res(e_arg[0]), n, 'the executor of the state is not the given one', p)
            if not lazy and not e_arg:
                call_oracle(chk, rc, p, K, fn_arg)
                continue
            slots = vt(p, K)
            for m in ('Call', 'Drop', 'Here', 'Next'):
                if m not in slots or (m in ('Here', 'Next') and not lazy):
                    continue
                args = [(K, 0)] + ([p.eng.sym('arg', 'awaiter')] if m in ('Here', 'Next') else [])
                for q in C.resume(p, slots[m], args):
                    if q.end == 'cut':
                        continue
                    ev = q.ev[q.nprev:]
                    if m == 'Call':
                        call_oracle(chk, rc, q, K, fn_arg)
                    elif m == 'Drop':
                        fulfil_rule(chk, rd_, q, K, 2)
                        o = Objs(q)
                        ftok = ('init', fn_arg)
                        kills = [e for e in q.ev if e.k == 'call' and e.sn == 'probe::Fn::~Fn' and base(q, e.args[0]) == K]
                        chk.ob(rd_, len(kills) == 1 and not o.bad, q.entry, 'the functor is destroyed %d times' % len(kills), q)
                        chk.ob(rd_, not o.calls, q.entry, 'the functor of a dropped contract is invoked', q)
                    else:
                        s = [e for e in ev if e.k == 'vcall' and e.m == 'Submit']
                        if e_arg:
                            chk.ob(rh, len(s) == 1 and same(q, s[0].args[1], K) and q.res(s[0].obj) == q.res(e_arg[0]), q.entry, 'is submitted %d times' % len(s), q)
                        else:
                            call_oracle(chk, rc, q, K, fn_arg)
        chk.ob(r, nn > 0, n, 'never builds a contract')


def call_oracle(chk, r, q, K, fn_arg):
    o = Objs(q)
    for msg, e in o.finish():
        chk.ob(r, False, '%s at %s' % (q.entry, e.where() if e else ''), norm(msg), q)
    inv = [e for e in q.ev if e.k == 'call' and e.sn == 'probe::Fn::operator()']
    chk.ob(r, len(inv) == 1, q.entry, 'the functor is invoked %d times' % len(inv), q)
    if len(inv) != 1:
        return
    e = inv[0]
    tok = [t for ev, fa, t, a in o.calls if ev is e]
    chk.ob(r, not tok or tok[0] == ('init', fn_arg), q.entry, 'invokes another functor than the given one', q)
    kills = [x for x in q.ev if x.k == 'call' and x.sn == 'probe::Fn::~Fn' and base(q, x.args[0]) == K]
    chk.ob(r, len(kills) == 1 and (kills[0].i < e.i or not q.st.user.get('taken')), q.entry, 'the functor in the state is destroyed %d times before it runs' % len(kills), q)
    chk.ob(r, base(q, e.args[0]) != K, q.entry, 'the functor runs inside the state it may destroy', q)
    a = q.res(e.args[1])
    got = e.d['snap'].get(a[0], {}).get(a[1]) if issym(a) else None
    chk.ob(r, got is not None and q.res(got[1]) == (K, 0), q.entry, 'the functor is not given the promise of the state', q)
    if q.st.user.get('taken'):
        late = [x for x in q.ev if x.i > e.i and (x.d.get('addr') is not None and base(q, x.addr) == K or x.k in ('vcall', 'call', 'free') and any(base(q, v) == K for v in list(x.d.get('args') or []) + [x.d.get('obj')] if v is not None))]
        chk.ob(r, not late, '%s at %s' % (q.entry, late[0].where() if late else ''), 'the state is used after the functor took its promise', q)
    else:
        thrown = [x for x in q.ev if x.k == 'thrown' and x.i > e.i]
        ref = q.eng.bases[a[0]].kind == 'alloca' and not re.search(r'NS_7PromiseI', e.name) if issym(a) else False
        byref = re.search(r'JON6yaclib', e.name)
        fulfil_rule(chk, r, q, K, 1 if thrown and byref else 2)


def ready_task_rules(chk, C, pid, entry='make_task_value'):
    r = chk.rule(pid + '.ready_task', 'a task made from a value publishes that value (StopError when dropped) exactly once when it is started, and not before')
    nn = 0
    for p in C.paths(entry, init=init_handles(), key='h'):
        if p.end != 'ret':
            continue
        K = only_new(p, r'detail::ReadyCore<')
        if K is None:
            chk.ob(r, False, entry, 'is not built from one state', p)
            continue
        nn += 1
        chk.ob(r, not published(p, K) and not [e for e in p.ev if e.k == 'vcall'], entry, 'is fulfilled before it is started', p)
        slots = vt(p, K)
        for m in ('Call', 'Drop', 'Here', 'Next'):
            if m not in slots:
                continue
            args = [(K, 0)] + ([p.eng.sym('arg', 'awaiter')] if m in ('Here', 'Next') else [])

            def init(eng, st, vals):
                o = cb_off(eng, st, K)
                eng.havoc_base(st, (K, o), 8)   # whatever continuation was attached since
            for q in C.resume(p, slots[m], args, init):
                if q.end == 'cut':
                    continue
                fulfil_rule(chk, r, q, K, 2 if m == 'Drop' else 0, None if m == 'Drop' else ('init', p.args[0]))
                o = Objs(q)
                for msg, e in o.finish():
                    chk.ob(r, False, '%s at %s' % (q.entry, e.where() if e else ''), norm(msg), q)
    chk.ob(r, nn > 0, entry, 'never builds a task')


def chain_head(p, core):
    """follow the links of a lazy chain: the first step and whether the path determined it"""
    off = node_off(p.eng.m)
    cur = (core, 0)
    for _ in range(10):
        x = p.st.user.get(('init', cur[0], cur[1] + off))
        if x is None:
            return cur, False
        x = p.res(x)
        if x == 0 or p.decide_eq(x, 0) is True:
            return cur, True
        if not issym(x):
            return cur, False
        cur = (x[0], x[1] - off)
    return cur, False


def task_rules(chk, C, pid):
    r = chk.rule(pid + '.task.start', 'starting, detaching, cancelling or dropping a task hands its first step over exactly once, to the right executor')
    rk = chk.rule(pid + '.task.keep', 'a detached or cancelled task leaves the drop callback and is not touched once started; a started one is kept by the future')
    for n, how in (('task_drop', 'drop'), ('task_cancel', 'cancel'), ('task_detach', 'detach'), ('task_detach_e', 'detach'), ('task_tofuture', 'future'), ('task_tofuture_e', 'future')):
        drop = how == 'drop'
        nn = 0
        for p in C.paths(n, init=init_handles(valid=not drop), key='v%d' % (not drop), loop=3):
            if p.end == 'cut':
                continue
            core = p.st.user['handles'][0][0]
            chk.ob(r, p.end == 'ret', n, 'does not return', p)
            if p.end != 'ret':
                continue
            acts = [e for e in p.ev if e.k == 'vcall' and e.m in ('Submit', 'Call', 'Drop', 'Here', 'Next')]
            if drop and p.res((core, 0)) == 0:
                chk.ob(r, not acts and not [e for e in p.ev if e.k in ('aload', 'rmw', 'cas')], n, 'an empty task touches a state', p)
                continue
            if drop and seen_result(p, core):
                chk.ob(r, not acts and len(decs(p, core)) == 1, n, 'a finished task is released %d times' % len(decs(p, core)), p)
                continue
            nn += 1
            head, det = chain_head(p, core)
            chk.ob(r, det, n, 'the chain of steps is not followed to its first step', p)
            if not det:
                continue
            e_arg = p.args[1] if n.endswith('_e') else None
            chk.ob(r, len(acts) == 1, n, '%d steps are started' % len(acts), p)
            if len(acts) != 1:
                continue
            a = acts[0]
            if how in ('drop', 'cancel'):
                chk.ob(r, a.m == 'Drop' and p.res(a.obj) == head, '%s at %s' % (n, a.where()), 'the first step is not dropped', p)
            else:
                chk.ob(r, a.m == 'Submit' and p.res(a.args[1]) == head, '%s at %s' % (n, a.where()), 'it is not the first step that is submitted', p)
                if e_arg is not None:
                    chk.ob(r, p.res(a.obj) == p.res(e_arg), '%s at %s' % (n, a.where()), 'the first step is not submitted to the given executor', p)
                else:
                    ex = exec_init(p, head)
                    chk.ob(r, ex is not None and p.res(a.obj) == ex, '%s at %s' % (n, a.where()), 'the first step is not submitted to its own executor', p)
            if e_arg is not None:
                st = [e for e in p.ev if e.k == 'st' and base(p, e.addr) == head[0] and p.res(e.val) == p.res(e_arg) and e.i < a.i]
                inc = incs(p, p.res(e_arg)[0])
                had = exec_init(p, head) == p.res(e_arg)
                chk.ob(r, bool(st) and len(inc) == 1 or had and len(inc) == len(decs(p, p.res(e_arg)[0])), n, 'the first step does not keep the executor it runs on', p)
            if how == 'future':
                out = p.args[-1]
                chk.ob(rk, rd(p, p.st.mem, out[0], out[1]) == (core, 0) and not decs(p, core) and handle_empty(C, p, 0), n, 'the future does not take over the task', p)
                continue
            cb = [x for x in cas_or_xchg(p, core) if lib_callback(p, x[1])]
            chk.ob(rk, len(cb) == 1 and cb[0][0].i < a.i, n, 'the drop callback is left %d times before the start' % len(cb), p)
            chk.ob(rk, handle_empty(C, p, 0), n, 'the handle still refers to the task', p)
            late = [e for e in p.ev if e.i > a.i and e.d.get('addr') is not None and base(p, e.addr) in (core, head[0])] + [e for e in decs(p, core)]
            chk.ob(rk, not late, '%s at %s' % (n, late[0].where() if late else ''), 'the task is used after it was started', p)
        chk.ob(r, nn > 0, n, 'never starts a task')


def exec_init(p, head):
    """initial executor of the step at `head` (address)"""
    m = p.eng.m
    cid = by_name(m).get('yaclib::detail::BaseCore')
    if cid is None:
        raise AnalysisError('no class yaclib::detail::BaseCore')
    o = offset(m, cid, '_executor')
    if o is None:
        raise AnalysisError('yaclib::detail::BaseCore has no executor slot')
    for d in (0, 8):
        x = p.st.user.get(('init', head[0], head[1] + o + d))
        if x is not None:
            return p.res(x)
    return None


def job_rules(chk, C, pid):
    """Submit(executor, f): the job object"""
    r = chk.rule(pid + '.job', 'a submitted functor is wrapped in one job, handed to the executor once; Call invokes it once and destroys it, Drop only destroys it')
    nn = 0
    for p in C.paths('submit_fn', init=init_handles(), key='h'):
        if p.end != 'ret' or p.eng.bases[p.res(p.args[0])[0]].kind == 'global':
            continue
        ks = [base(p, e.obj) for e in p.ev if e.k == 'new']
        if len(ks) != 1:
            chk.ob(r, False, 'submit_fn', 'is not built from one job', p)
            continue
        K = ks[0]
        nn += 1
        subs = [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit']
        chk.ob(r, len(subs) == 1 and same(p, subs[0].args[1], K) and p.res(subs[0].obj) == p.res(p.args[0]), 'submit_fn', 'the job is submitted %d times' % len(subs), p)
        slots = vt(p, K)
        for m in ('Call', 'Drop'):
            for q in C.resume(p, slots[m], [(K, 0)]):
                if q.end == 'cut':
                    continue
                o = Objs(q)
                for msg, e in o.finish():
                    chk.ob(r, False, '%s at %s' % (q.entry, e.where() if e else ''), norm(msg), q)
                inv = [e for e in q.ev if e.k == 'call' and e.sn == 'probe::Fn::operator()']
                fr = [e for e in q.ev if e.k == 'free' and same(q, e.obj, K)]
                kills = [e for e in q.ev if e.k == 'call' and e.sn == 'probe::Fn::~Fn']
                chk.ob(r, len(inv) == (m == 'Call'), q.entry, 'the functor is invoked %d times' % len(inv), q)
                # a functor that throws out of a job ends the program (Call is noexcept)
                if q.end == 'ret':
                    chk.ob(r, len(fr) == 1 and len(kills) >= 1, q.entry, 'the job is freed %d times' % len(fr), q)
                    if inv and fr:
                        chk.ob(r, fr[0].i > inv[0].i or base(q, inv[0].args[0]) != K, q.entry, 'the job is freed before its functor is invoked', q)
    chk.ob(r, nn > 0, 'submit_fn', 'never submits a job')


def shared_handle_rules(chk, C, pid):
    r = chk.rule(pid + '.shared.refs', 'a copy of a SharedFuture takes exactly one reference, its destruction gives back exactly one')
    for p in C.paths('sh_copy', init=init_handles(), key='h'):
        core = p.st.user['handles'][0][0]
        out = p.args[1]
        chk.ob(r, p.end == 'ret' and len(incs(p, core)) == 1 and not decs(p, core) and rd(p, p.st.mem, out[0], out[1]) == (core, 0), 'sh_copy', 'takes %d references' % len(incs(p, core)), p)
    n = 0
    for p in C.paths('sh_drop', init=init_handles(valid=False), key='v0'):
        core = p.st.user['handles'][0][0]
        want = 0 if p.res((core, 0)) == 0 else 1
        n += want
        d = [e for e in p.ev if e.k == 'vcall' and e.m == 'DecRef']
        chk.ob(r, p.end == 'ret' and len(d) == want and not incs(p, core), 'sh_drop', 'gives back %d references' % len(d), p)
    chk.ob(r, n > 0, 'sh_drop', 'never gives back a reference')
