"""Rules on the operations of Future/Promise/SharedFuture handles (probe core.cpp)."""
from rules_step import *


def decs(p, b, since=-1):
    return [e for e in p.ev if e.k == 'vcall' and e.m == 'DecRef' and e.i > since and same(p, e.obj, b)]


def incs(p, b):
    return [e for e in p.ev if e.k == 'vcall' and e.m == 'IncRef' and same(p, e.obj, b)]


def split_ret(p):
    """the path once per value of its undetermined boolean result: [(path, value)]"""
    v = p.res(p.ret)
    if type(v) is int:
        return [(p, v & 1)]
    out = []
    for truth in (True, False):
        for s in p.eng.assume(p.st.fork(), v, truth):
            q = Path(p.eng, s, p.end, 1 if truth else 0)
            q.entry, q.args = p.entry, p.args
            out.append((q, int(truth)))
    return out


def handle_empty(C, p, i):
    fn = C.m.fns[p.entry]
    off, _ = handle_core(C.m, fn.pt[1 + i][1:])
    h = p.args[i]
    return rd(p, p.st.mem, h[0], h[1] + off) == 0


def lib_callback(p, v):
    """a library global that is an InlineCore"""
    v = p.res(v)
    return issym(v) and p.eng.bases[v[0]].kind == 'global'


def same_result(p, o, dst, src, src_initial=True):
    """message if the Result at dst=(base,off) is not the one that was at src=(base,off) initially"""
    io = idx_off(p, src[0], src[1])
    if io is None:
        io = idx_off(p, dst[0], dst[1])
    wi, wpay = initial(p, src[0], src[1], io)
    i, pay = content(p, p.st.mem, lambda a: obj_token(o, a), dst[0], dst[1], io)
    if i is None:
        return 'no result is stored'
    if type(i) is not int:
        if wi is not None and i == wi:
            return None
        return 'the state of the result is not that of the source'
    if type(wi) is not int or wi != i:
        return 'the result becomes %s for %s' % (STN.get(i, i), STN.get(wi, wi))
    if i == 0 and wpay[0] != pay or i == 1 and wpay[1] != pay:
        return 'the payload of the result is not that of the source'
    return None


def src_moved(p, o, src):
    """the Result at src was moved from on this path"""
    s = o.st.get(src)
    if s and s[0] in ('moved', 'dead', 'raw'):
        return True
    i = p.st.user.get(('init', src[0], src[1]))
    now = rd(p, p.st.mem, src[0], src[1])
    return i is not None and now is not None and now != p.res(i)


def unknown_ok(p):
    return p.end == 'cut'


def drop_rules(chk, C, pid, entries=('drop_future', 'drop_future_on', 'detach_future')):
    r = chk.rule(pid + '.drop', 'an abandoned future is released by exactly one side: the drop callback left for the producer, or directly when the result is already there')
    rc = chk.rule(pid + '.drop.callback', 'the drop callback releases the state it is run for exactly once and runs nothing else')
    glob = {}
    for n in entries:
        det = n.startswith('detach')
        for p in C.paths(n, init=init_handles(valid=det), key='v%d' % det):
            if p.end == 'cut':
                continue
            core = p.st.user['handles'][0][0]
            chk.ob(r, p.end == 'ret', n, 'does not return', p)
            if p.res((core, 0)) == 0:
                chk.ob(r, not [e for e in p.ev if e.k in ('rmw', 'cas', 'aload', 'vcall')], n, 'an empty future touches a state', p)
                continue
            w = [x for x in cas_or_xchg(p, core)]
            d = decs(p, core)
            chk.ob(r, handle_empty(C, p, 0) or not det, n, 'the handle still refers to the state', p)
            if w:
                e, new, old = w[0]
                chk.ob(r, len(w) == 1 and not d and lib_callback(p, new), '%s at %s' % (n, e.where()), 'leaves %d callbacks and releases the state %d times' % (len(w), len(d)), p)
                chk.ob(r, has_rel(e.so if e.k == 'cas' else e.ord), '%s at %s' % (n, e.where()), 'the drop callback is published without release', p)
                if lib_callback(p, new):
                    glob[new] = p
            else:
                chk.ob(r, len(d) == 1, n, 'the state is released %d times' % len(d), p)
                if d:
                    chk.ob(r, bool(seen_result(p, core, d[0].i)), '%s at %s' % (n, d[0].where()), 'the state is released although its producer may still be using it', p)
            chk.ob(r, not [e for e in p.ev if e.k == 'vcall' and e.m in ('Submit', 'Call', 'Drop', 'Next')], n, 'runs something although the future was dropped', p)
    for g, p in glob.items():
        drop_callback(chk, C, rc, p, g)


def drop_callback(chk, C, rc, p, g):
    info = p.eng.bases[g[0]].info
    v = p.eng.gload(info, g[1], 8)
    if v is None:
        raise AnalysisError('the drop callback %s has no known type' % info)
    slots = p.eng.m.vtslots(p.eng.bases[v[0]].info, v[1])
    for m in ('Here', 'Next'):
        if m not in slots:
            continue
        src = p.eng.sym('arg', 'fulfilled')
        for q in C.resume(p, slots[m], [g, src]):
            if q.end == 'cut':
                continue
            ev = q.ev[q.nprev:]
            d = [e for e in ev if e.k == 'vcall' and e.m == 'DecRef' and same(q, e.obj, src[0])]
            chk.ob(rc, q.end == 'ret' and len(d) == 1, q.entry, 'releases the state %d times' % len(d), q)
            chk.ob(rc, not [e for e in ev if e.k == 'vcall' and e.m != 'DecRef'], q.entry, 'runs something else', q)
            if m == 'Here':
                chk.ob(rc, q.res(q.ret) == 0, q.entry, 'hands over a callback to run', q)


def ready_rules(chk, C, pid, entries):
    r = chk.rule(pid + '.ready', 'Ready() is true only after an acquire load found the result present, and true whenever it is present')
    for n in entries:
        for p in C.paths(n, init=init_handles(), key='h'):
            if p.end == 'cut':
                continue
            core = p.st.user['handles'][0][0]
            for q, v in split_ret(p):
                al = [e for e in q.ev if e.k == 'aload' and same_base(q, e.addr, core) and is_cb(q, e.addr)]
                full = [e for e in al if q.decide_eq(e.val, M64) is True]
                if v:
                    chk.ob(r, bool([e for e in full if has_acq(e.ord)]), n, 'returns true without an acquire observation of the result', q)
                else:
                    chk.ob(r, al and not full, n, 'returns false although the result is present', q)


def peek_rules(chk, C, pid, entries):
    r = chk.rule(pid + '.peek', 'Get() on an lvalue future returns the stored result only after observing with acquire that it is present')
    for n in entries:
        nn = 0
        for p in C.paths(n, init=init_handles(), key='h'):
            if p.end == 'cut':
                continue
            core = p.st.user['handles'][0][0]
            v = p.res(p.ret)
            if v == 0:
                chk.ob(r, not [e for e in p.ev if e.k == 'aload' and p.decide_eq(e.val, M64) is True], n, 'returns null although the result is present', p)
                continue
            nn += 1
            chk.ob(r, v == (core, ro_of(p, core)), n, 'does not return the stored result', p)
            chk.ob(r, bool(seen_result(p, core)), n, 'returns the result without an acquire observation that it is present', p)
        chk.ob(r, nn > 0, n, 'never returns a result')


def waited(p, core, upto=None):
    """blocking wait for the result of core: a local callback was registered and its signal observed"""
    for e, new, old in cas_or_xchg(p, core):
        if not issym(new):
            continue
        for x in p.ev:
            if x.i <= e.i or (upto is not None and x.i >= upto):
                continue
            if x.k == 'ld' and base(p, x.addr) == new[0] and p.decide_eq(x.val, 0) is False and not issym(p.res(x.val)):
                return x
            if x.k == 'ld' and base(p, x.addr) == new[0] and p.eng.bases[new[0]].kind in ('alloca', 'new') and x.size == 1 and p.decide_eq(x.val, 0, 8) is False:
                return x
            if x.k == 'aload' and base(p, x.addr) == new[0] and p.decide_eq(x.val, 0) is False and has_acq(x.ord):
                return x
    return None


def out_index(C, n):
    fn = C.m.fns[n]
    return len(fn.pt) - 2


def get_rules(chk, C, pid, entries, wait=True, shared=False):
    """entries: name -> 'move' | 'const'"""
    r = chk.rule(pid + '.get', 'Get/Touch hands out exactly the stored result, after it is known to be present (or waited for)')
    rr = chk.rule(pid + '.get.release', 'a consuming Get/Touch gives up the reference of the handle exactly once, after the result was taken')
    rm = chk.rule(pid + '.get.move', 'a shared result is moved out only by the last reference') if shared else None
    for n in entries:
        nret = 0
        waits = 0
        for p in C.paths(n, init=init_handles(), key='h', loop=3):
            if p.end != 'ret':
                continue
            nret += 1
            core = p.st.user['handles'][0][0]
            ro = ro_of(p, core)
            out = p.args[out_index(C, n)]
            touch = list(result_touches(p, core))
            first = min([e.i for e in touch], default=len(p.ev))
            if 'touch' not in n:
                seen = seen_result(p, core, first)
                w = waited(p, core, first)
                waits += w is not None
                chk.ob(r, bool(seen) or w is not None, n, 'returns a result that may not be there yet', p)
                # the stack callback must not stay registered
            o = Objs(p)
            for msg, e in o.finish():
                chk.ob(r, False, '%s at %s' % (n, e.where() if e else ''), norm(msg), p)
            if entries[n] == 'const':
                v = rd(p, p.st.mem, out[0], out[1])
                chk.ob(r, v == (core, ro), n, 'does not return the stored result', p)
                chk.ob(rr, not decs(p, core) and not incs(p, core), n, 'changes the number of references', p)
                continue
            m = same_result(p, o, out, (core, ro))
            chk.ob(r, m is None, n, norm(m or ''), p)
            d = decs(p, core)
            want = 1 if handle_empty(C, p, 0) else 0 if shared else 1
            chk.ob(rr, len(d) == want and (shared or handle_empty(C, p, 0)), n, 'the reference of the handle is released %d times' % len(d), p)
            if d:
                late = [e for e in touch if e.i > d[0].i]
                chk.ob(rr, not late, '%s at %s' % (n, late[0].where() if late else ''), 'the state is used after its reference was released', p)
            if shared and src_moved(p, o, (core, ro)):
                chk.ob(rm, last_ref(p, core, 1), n, 'moves out of a shared state that may have other holders', p)
        chk.ob(r, nret > 0, n, 'never returns')
        if wait and 'touch' not in n:
            chk.ob(r, waits > 0, n, 'there is no path that waits for the result')


def getrefs(p, b):
    return [e for e in p.ev if e.k == 'vcall' and e.m == 'GetRef' and same(p, e.obj, b)]


def last_ref(p, b, limit):
    """the path established that the state has at most `limit` references"""
    for e in getrefs(p, b):
        v = p.res(e.ret)
        if type(v) is int:
            if v <= limit:
                return True
        elif p.eng.cmp(p.st, 'ugt', v, limit, 64) is False:
            return True
    return False


def connect_rules(chk, C, pid, entries):
    r = chk.rule(pid + '.connect', 'Connect either registers the target with the source or passes the present result on, exactly once')
    rs = chk.rule(pid + '.connect.result', 'the result passed on equals that of the source, which is released once if it was owned')
    for n in entries:
        ok = bad = 0
        su = n.split('_')[1]
        for p in C.paths(n, init=init_handles(), key='h', loop=3):
            if p.end == 'cut':
                continue
            src, dst = p.st.user['handles'][0][0], p.st.user['handles'][1][0]
            w = cas_or_xchg(p, src)
            w = [x for x in w if issym(x[1])]
            pub = published(p, dst)
            chk.ob(r, p.end == 'ret', n, 'does not return', p)
            if p.end != 'ret':
                continue
            if w:
                ok += 1
                e, new, old = w[0]
                chk.ob(r, len(w) == 1 and new[0] == dst and has_rel(e.so if e.k == 'cas' else e.ord), '%s at %s' % (n, e.where()), 'does not register the target', p)
                chk.ob(r, not pub, n, 'the target is registered and fulfilled', p)
                late = [x for x in p.ev if x.i > e.i and (x.k == 'vcall' or x.k in ('st', 'ld') and base(p, x.addr) in (src, dst))]
                chk.ob(r, not late, '%s at %s' % (n, late[0].where() if late else ''), 'a state is used after it was handed over', p)
                chk.ob(r, handle_empty(C, p, 1) and (su[0] != 'u' or handle_empty(C, p, 0)), n, 'a handle still refers to a state that was handed over', p)
                if su[0] == 's' or su[0] == 'p':
                    chk.ob(r, not decs(p, src), n, 'the shared source is released', p)
            elif su[0] == 'p':
                continue   # the source promise is not fulfilled yet: registration cannot fail
            else:
                bad += 1
                chk.ob(r, len(pub) == 1, n, 'the target is fulfilled %d times' % len(pub), p)
                if not pub:
                    continue
                t = [e for e in result_touches(p, src)]
                first = min([e.i for e in t], default=pub[0].i)
                chk.ob(r, bool(seen_result(p, src, first)), n, 'the source is read before its result is known to be present', p)
                o = Objs(p)
                for msg, e in o.finish():
                    chk.ob(rs, False, '%s at %s' % (n, e.where() if e else ''), norm(msg), p)
                m = same_result(p, o, (dst, ro_of(p, dst)), (src, ro_of(p, src)))
                chk.ob(rs, m is None, n, norm(m or ''), p)
                d = decs(p, src)
                chk.ob(rs, len(d) == (1 if su[0] == 'u' else 0), n, 'the source is released %d times' % len(d), p)
                if su[0] == 's':
                    chk.ob(rs, not src_moved(p, o, (src, ro_of(p, src))), n, 'moves out of a shared source', p)
                chk.ob(r, handle_empty(C, p, 1) and (su[0] != 'u' or handle_empty(C, p, 0)), n, 'a handle still refers to a state it no longer owns', p)
        chk.ob(r, ok > 0, n, 'never registers the target')
        if su[0] != 'p':
            chk.ob(r, bad > 0, n, 'never passes on a result that is already there')


def forward_rules(chk, C, pid, makers):
    """a plain state registered with another one (Connect, Share, Split): its Here/Next as callback"""
    r = chk.rule(pid + '.forward', 'a connected state takes over the result of the state it was registered with and publishes it exactly once')
    rm = chk.rule(pid + '.forward.move', 'it moves the result only when no other observer is left, and releases the source exactly when it holds the last reference')
    for n in makers:
        for p in C.paths(n, init=init_handles(), key='h'):
            if p.end != 'ret':
                continue
            ks = news(p, r'detail::(Unique|Shared)Core<')
            if len(ks) != 1:
                chk.ob(r, False, n, 'allocates %d states' % len(ks), p)
                continue
            K = ks[0]
            sh = is_shared(p, K)
            cid = [c for o, c in p.st.hint.get(K, ()) if re.search(r'ResultCore<|UniqueCore<|SharedCore<', C.m.cname(c))][0]
            slots = vt(p, K)
            for m in ('Here', 'Next'):
                src, me = p.eng.sym('arg', 'fulfilled'), p.eng.sym('arg', 'connected')
                K0 = K

                def init(eng, st, vals):
                    for x in (src, me):   # any two states of these types, whatever was registered meanwhile
                        eng.addhint(st, x[0], 0, cid)
                        nonnull(eng, st, x)
                cases = 0
                K = me[0]
                for q in C.resume(p, slots[m], [me, src], init):
                    if q.end == 'cut':
                        continue
                    cases += 1
                    pub = published(q, K)
                    chk.ob(r, q.end == 'ret' and len(pub) == 1, q.entry, 'publishes the result %d times' % len(pub), q)
                    if len(pub) != 1:
                        continue
                    e = pub[0]
                    order = e.so if e.k == 'cas' else e.ord
                    chk.ob(r, e.k != 'astore' and has_rel(order) and has_acq(order), '%s at %s' % (q.entry, e.where()), 'published with order %s' % order, q)
                    o = Objs(q)
                    ro = ro_of(q, K)
                    mm = same_result(q, o, (K, ro), (src[0], ro))
                    chk.ob(r, mm is None, q.entry, norm(mm or ''), q)
                    late = [x for x in q.ev if x.i > e.i and x.k == 'st' and base(q, x.addr) == K]
                    chk.ob(r, not late, q.entry, 'the state is written after it was published', q)
                    old = q.res(e.old) if e.k != 'cas' else q.res(e.exp)
                    runs = [x for x in q.ev if x.i > e.i and x.k == 'vcall' and x.m in ('Here', 'Next')]
                    retv = q.res(q.ret) if q.ret is not None else 0
                    if not sh:
                        mine = [x for x in runs if q.res(x.obj) == old and same(q, x.args[-1], K)]
                        tail = issym(retv) and retv == old
                        if old == 0:
                            chk.ob(r, not runs, q.entry, 'runs something although nothing was registered', q)
                        else:
                            chk.ob(r, len(mine) + tail == 1, q.entry, 'the registered continuation is run %d times' % (len(mine) + tail), q)
                    else:
                        shared_walk(chk, r, q, K, e, q.entry)
                    moved = src_moved(q, o, (src[0], ro))
                    d = decs(q, src[0])
                    one = [g for g in getrefs(q, src[0]) if q.decide_eq(g.ret, 1) is True]
                    if moved:
                        chk.ob(rm, last_ref(q, src[0], 2), q.entry, 'moves out of a state that may have other observers', q)
                    g = getrefs(q, src[0])
                    if d:
                        chk.ob(rm, len(d) == 1 and one, q.entry, 'releases a source it does not own', q)
                    else:
                        chk.ob(rm, g and not one and not [x for x in g if q.decide_eq(x.ret, 1) is None and q.eng.cmp(q.st, 'ugt', x.ret, 2, 64) is None], q.entry, 'does not release the source it owns', q)
                    if d:
                        t = [x for x in result_touches(q, src[0]) if x.i > d[0].i]
                        chk.ob(rm, not t, q.entry, 'reads the source after releasing it', q)
                K = K0
                chk.ob(r, cases > 0, '%s > %s' % (n, m), 'cannot be analysed')
