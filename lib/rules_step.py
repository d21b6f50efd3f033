"""Rules decided on the histories of pipeline steps and on the operations of handles (probe core.cpp)."""
from corelib import *

CATTEXT = {
    'lost': 'every history of a step completes: nothing that was registered is forgotten',
    'dup': 'a step publishes its result once and invokes its callable at most once',
    'mem': 'no object is used, destroyed or released after it was given away or destroyed',
    'leak': 'everything a step owns is released when the step is over',
    'place': 'a step is submitted to the executor it was given (or inherits) exactly when it has to be, and passes that executor on',
    'route': 'the callable is invoked exactly for the input kinds of its signature, with the input, and its outcome (or the unchanged input) becomes the result',
    'exc': 'what the callable throws becomes the Exception of the result',
    'unwrap': 'a returned future or task is flattened: the result of the step is the inner result',
}


def norm(s):
    return re.sub(r'#\d+', '#', s)


def short(fnq):
    return re.sub(r'<.*', '', fnq) if '<' in fnq else fnq


def report_steps(chk, C, rules, hists, checker=StepCheck, dropcat=None):
    """rules: {category: rule id}; one obligation per (history, category)"""
    for h, p, err in hists:
        if err:
            for cat, rid in rules.items():
                chk.ob(rid, False, p.entry, err, p)
            continue
        s = checker(C, h)
        got = {}
        for cat, msg, e in s.bad:
            got.setdefault(cat, []).append((msg, e))
        for cat, rid in rules.items():
            if cat in got:
                msg, e = got[cat][0]
                chk.ob(rid, False, h.where() + (' at ' + e.where() if e is not None else ''), norm(msg), h.p)
            else:
                chk.ob(rid, True, '')


def step_rules(chk, C, pid, cats, modes=None, heads=True, att=True, sigs=None):
    rules = {}
    for c in cats:
        rules[c] = chk.rule('%s.step.%s' % (pid, c), CATTEXT[c])
    n = 0
    if att:
        for e, mode, sig in step_entries(C.m):
            if modes and not re.match(modes, mode):
                continue
            if sigs and not re.match(sigs, sig):
                continue
            n += 1
            report_steps(chk, C, rules, step_histories(C, e, mode, sig))
    if heads:
        for e, kind, pl, sig in head_entries(C.m):
            if modes and not re.match(modes, kind):
                continue
            n += 1
            report_steps(chk, C, rules, head_histories(C, e, kind, pl, sig))
    if n == 0:
        raise AnalysisError('no step entry points')


# ---------------------------------------------------------------- order of observations

def early_rules(chk, C, pid, modes=None):
    r = chk.rule(pid + '.step.early', 'the result of the input is touched only after an acquire observation that it is present')
    pub = chk.rule(pid + '.step.publish', 'a continuation is made visible to the producer only by a release operation, with its fields already set')
    for n, mode, sig in step_entries(C.m):
        if modes and not re.match(modes, mode):
            continue
        place, lazy, detach = MODES[mode]
        opts = {'loop': 2} if mode.startswith('s') else {}
        for p in C.paths(n, init=init_handles(), key='h', **opts):
            if p.end == 'cut' or lazy:
                continue
            src = p.st.user['handles'][0][0]
            observe_rule(chk, r, p, src)
            publish_rule(chk, pub, p)


def observe_rule(chk, r, p, src):
    t = list(result_touches(p, src))
    runs = [e for e in p.ev if e.k == 'call' and e.sn == 'probe::Fn::operator()']
    runs += [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit']
    first = min([e.i for e in t + runs], default=None)
    if first is None:
        chk.ob(r, True, '')
        return
    ev = [e for e in t + runs if e.i == first][0]
    chk.ob(r, bool(seen_result(p, src, first)), '%s at %s' % (p.entry, ev.where()), 'uses the input before its result is known to be present', p)


def publish_rule(chk, r, p):
    for e in p.ev:
        if e.k == 'cas' and e.ok and is_cb(p, e.addr) and issym(p.res(e.des)):
            chk.ob(r, has_rel(e.so), '%s at %s' % (p.entry, e.where()), 'callback published with order %s' % e.so, p)
            x = p.res(e.des)
            if p.eng.bases[x[0]].kind == 'new':
                late = [w for w in p.ev if w.k == 'st' and w.i > e.i and base(p, w.addr) == x[0] and not any(q.k == 'phase' and e.i < q.i < w.i for q in p.ev)]
                chk.ob(r, not late, '%s at %s' % (p.entry, late[0].where() if late else ''), 'the callback is modified after it was published', p)
        elif e.k == 'rmw' and e.rmw == 'xchg' and is_cb(p, e.addr) and issym(p.res(e.val)):
            chk.ob(r, has_rel(e.ord), '%s at %s' % (p.entry, e.where()), 'callback published with order %s' % e.ord, p)
        elif e.k == 'astore' and is_cb(p, e.addr) and issym(p.res(e.val)) and False:
            pass


# ---------------------------------------------------------------- producer side

SETS = {'set_value': 0, 'set_error': 2, 'set_exception': 1, 'set_result': None, 'set_void': 0, 'set_int': 0, 'set_custom': 0, 'drop_promise': 2, 'drop_promise_void': 2}
SSETS = {'sset_value': 0, 'sset_error': 2, 'sdrop_promise': 2}


def obj_token(objs, a):
    return objs.st[a][1] if a in objs.st else None


def stored_ok(p, core, want, argi):
    """message if the result stored in state core is not what was given"""
    o = Objs(p)
    for msg, e in o.finish():
        return msg
    ro = ro_of(p, core)
    io = idx_off(p, core, ro)
    i, pay = content(p, p.st.mem, lambda a: obj_token(o, a), core, ro, io)
    if want is None:
        a = p.args[argi]
        wi, wpay = initial(p, a[0], a[1], io)
        if wi is None or type(i) is not int and i != wi:
            return 'the stored Result is not the argument'
        if type(i) is int:
            if type(wi) is not int or i != wi:
                return 'stores %s for %s' % (STN.get(i), STN.get(wi, wi))
            if i == 0 and pay != wpay[0] or i == 1 and pay != wpay[1]:
                return 'the payload stored is not that of the argument'
        return None
    if type(i) is not int:
        return 'the state of the result is never set'
    if i != want:
        return 'the result is %s instead of %s' % (STN.get(i), STN.get(want))
    if argi is not None:
        a = p.args[argi]
        if i == 1:
            x = p.st.user.get(('init', a[0], a[1]))
            if x is None or p.res(x) != pay:
                return 'the stored exception is not the argument'
        elif i == 0 and pay is not None or i == 0 and '5probe1VE' in str(p.eng.m.fns[p.entry].pt[1 + argi]):
            if pay != ('init', a):
                return 'the stored value is not the argument'
    return None


def producer_rules(chk, C, pid, entries, shared=False):
    r1 = chk.rule(pid + '.set.once', 'Set and ~Promise publish the result exactly once, by an acquire-release exchange, after storing it completely')
    r2 = chk.rule(pid + '.set.stored', 'the published Result is the one given (StopError for a dropped promise)')
    r3 = chk.rule(pid + '.set.run', 'the continuation found in the word is run exactly once with the fulfilled state, and only if there is one')
    r4 = chk.rule(pid + '.set.empty', 'the promise no longer refers to the state after Set')
    for n, want in entries.items():
        fn = C.m.fns.get(n)
        if fn is None:
            raise AnalysisError('entry missing ' + n)
        drop = 'drop' in n
        argi = 1 if len(fn.pt) > 2 else None
        opts = {'loop': 3} if shared else {}
        seen = False
        for p in C.paths(n, init=init_handles(valid=not drop), key='v%d' % (not drop), **opts):
            if p.end == 'cut':
                continue
            core = p.st.user['handles'][0][0]
            valid = p.res((core, 0)) != 0
            w = cas_or_xchg(p, core)
            if not valid:
                chk.ob(r1, not w and not [e for e in p.ev if e.k in ('rmw', 'cas', 'vcall')], n, 'an invalid promise touches a state', p)
                continue
            pubs = published(p, core)
            seen = True
            chk.ob(r1, p.end == 'ret' and len(pubs) == 1, n, 'the result is published %d times' % len(pubs), p)
            if len(pubs) != 1:
                continue
            e = pubs[0]
            order = e.ord if e.k != 'cas' else e.so
            chk.ob(r1, e.k in ('rmw', 'cas') and has_rel(order) and has_acq(order), '%s at %s' % (n, e.where()), 'published with %s order %s' % (e.k, order), p)
            late = [x for x in p.ev if x.i > e.i and x.k in ('st', 'call') and (x.k == 'st' and base(p, x.addr) == core or x.k == 'call' and x.sn and x.sn.split('::')[-1] in ('V', 'Er') and base(p, x.args[0]) == core)]
            chk.ob(r1, not late, '%s at %s' % (n, late[0].where() if late else ''), 'the state is written after its result was published', p)
            chk.ob(r2, stored_ok(p, core, want, argi) is None, n, norm(stored_ok(p, core, want, argi) or ''), p)
            h = C.m and p.args[0]
            off, _ = handle_core(C.m, fn.pt[1][1:])
            v = rd(p, p.st.mem, h[0], h[1] + off)
            chk.ob(r4, v == 0, n, 'the promise still refers to the state', p)
            if shared:
                shared_walk(chk, r3, p, core, e, n)
                continue
            old = p.res(e.old) if e.k == 'rmw' else p.res(e.exp)
            runs = [x for x in p.ev if x.k == 'vcall' and x.m in ('Here', 'Next')]
            mine = [x for x in runs if x.i > e.i and p.res(x.obj) == old and same(p, x.args[-1], core)]
            if old == 0:
                chk.ob(r3, not runs, n, 'runs something although no continuation was registered', p)
            else:
                chk.ob(r3, len(mine) == 1, n, 'the registered continuation is run %d times' % len(mine), p)
                # a core returned by Here is run next
                for x, y in zip(runs, runs[1:] + [None]):
                    ret = p.res(x.ret) if x.ret is not None else 0
                    if p.decide_eq(x.ret, 0) is False:
                        chk.ob(r3, y is not None and p.res(y.obj) == ret and p.res(y.args[-1]) == p.res(x.obj), '%s at %s' % (n, x.where()), 'the continuation handed back by Here is not run next', p)
                    elif y is not None:
                        chk.ob(r3, False, '%s at %s' % (n, y.where()), 'runs a continuation nobody handed over', p)
        chk.ob(r1, seen, n, 'no path publishes a result')


def node_off(m):
    for cid, c in m.classes.items():
        if c['n'] == 'yaclib::Job':
            for bo, bid in c['b']:
                if m.classes.get(bid, {}).get('n') == 'yaclib::detail::Node':
                    return bo
    raise AnalysisError('yaclib::Job does not derive from Node')


def walk_list(p, first, since):
    """callbacks on the intrusive list starting at `first`: [(callback, event that read its link)], complete?"""
    off = node_off(p.eng.m)
    out = []
    cur = p.res(first)
    while issym(cur) and cur != 0 and len(out) < 8:
        nx = [x for x in p.ev if x.i > since and x.k == 'ld' and p.res(x.addr) == (cur[0], cur[1] + off)]
        if not nx:
            out.append((cur, None))
            return out, False
        out.append((cur, nx[0]))
        v = p.res(nx[0].val)
        if v == 0 or p.decide_eq(v, 0) is True:
            return out, True
        if p.decide_eq(v, 0) is None:
            return out, False
        if not issym(v):
            return out, None   # not the address of a node
        cur = (v[0], v[1] - off)
    return out, True


def shared_walk(chk, r3, p, core, e, n):
    """after the exchange: every listed callback run once, its link read before it runs, promise references released"""
    runs = [x for x in p.ev if x.i > e.i and x.k == 'vcall' and x.m in ('Here', 'Next')]
    listed, complete = walk_list(p, e.old if e.k == 'rmw' else e.exp, e.i)
    if complete is None:
        return
    chk.ob(r3, complete, n, 'the list of callbacks is not followed to its end', p)
    decs = [x for x in p.ev if x.i > e.i and x.k == 'vcall' and x.m == 'DecRef' and same(p, x.obj, core)]
    for j, (c, nx) in enumerate(listed):
        k = [x for x in runs if p.res(x.obj) == c and same(p, x.args[-1], core)]
        chk.ob(r3, len(k) == 1, n, 'a registered callback is run %d times' % len(k), p)
        if not k:
            continue
        if nx is not None:
            chk.ob(r3, nx.i < k[0].i, '%s at %s' % (n, nx.where()), 'the link of a callback is read after the callback was run', p)
        before = len([x for x in decs if x.i < k[0].i])
        last = j == len(listed) - 1
        chk.ob(r3, before <= (1 if last else 0), '%s at %s' % (n, k[0].where()), 'a callback that is not the last observer sees only %d promise references' % (3 - before), p)
    if not listed:
        chk.ob(r3, not [x for x in runs if same(p, x.args[-1], core)], n, 'runs something although nothing was registered', p)
    chk.ob(r3, len(decs) == 3, n, 'releases %d of the 3 references of the promise' % len(decs), p)
