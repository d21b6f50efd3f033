"""C09 (WhenAll, Join) and C10 (WhenAny): every completion history of a combinator over its inputs.

A history creates the combinator over symbolic inputs (each found ready, or left with a callback), then lets the attached
inputs complete in every order, where a completion may also come in between the atomic operations of another one or of the
registration loop.  Inputs are abstract: their state is whatever the code looks at."""
from corelib import *
from rules_event import EvCtx, REG
from rules_handle import decs, incs
from rules_step import norm


def fire(self, st, core, cb, m='Here'):
    v = st.mem.get(cb[0], {}).get(cb[1])
    v = self.resolve(st, v[1]) if v else None
    if v is None or not issym(v):
        raise AnalysisError('the callback of a combinator has no known type')
    fn = self.m.vtslots(self.bases[v[0]].info, v[1]).get(m)
    if fn is None:
        raise AnalysisError('no %s of the combinator callback' % m)
    st.user['att'] = tuple(x for x in st.user['att'] if x[0] != core)
    self.event(st, 'fire', {'core': core})
    return self.m.fns[self.m.aliases.get(fn, fn)]


def interpose(self, st, f, ins):
    """another attached input may complete right before this operation"""
    att = st.user.get('att')
    if not att or st.user.pop('asked', None):
        return None
    if st.user.get('noint'):
        return None
    s0 = st.fork()
    s0.user['asked'] = True
    s0.forks += 1
    out = [s0]
    for core, cb in att:
        s = st.fork()
        s.forks += 1
        fn = fire(self, s, core, cb)
        self.top(s).i -= 1
        self.push(s, fn, [cb, (core, 0)], None, None, ins.get('l', 0))
        self.top(s).mark = core
        out.append(s)
    return out


def preop(self, st, f, ins, addr):
    a = self.resolve(st, addr)
    if not issym(a) or self.bases[a[0]].kind != 'new' or not st.user.get('att'):
        return None
    if a[0] == st.user.get('outcore'):
        return None
    return interpose(self, st, f, ins)


def m_register(self, st, f, ins, fn, args):
    r = interpose(self, st, f, ins)
    if r is not None:
        return r
    a = [self.resolve(st, x) for x in args]
    out = []
    for v in (1, 0):
        s2 = st.fork()
        s2.forks += 1
        self.event(s2, 'call', {'sn': fn.sn, 'name': fn.name, 'args': a, 'ret': v, '_l': ins.get('l', 0)})
        if v:
            s2.user['att'] = s2.user.get('att', ()) + ((a[0][0], a[1]),)
        self.finish_call(s2, ins, v)
        out.append(s2)
    return out


def v_retire(self, st, f, ins, args, ex):
    """ResultCore::Retire on an input: the kind of state is known from the handle it came with"""
    k = 1 if ins.get('sret') and ins['sret'][0] == 0 else 0
    a = self.resolve(st, args[k])
    if not issym(a):
        return NOMODEL
    for o, cid in st.hint.get(a[0], ()):
        n = self.m.cname(cid)
        if o == 0 and re.match(r'yaclib::detail::(Unique|Shared)Core<', n):
            fn = self.m.vtslots('_ZTV' + cid[4:]).get('Retire') if '_ZTV' + cid[4:] in self.m.globals else None
            if fn:
                inv = (ins['n'], ins['u']) if ins['op'] == 'invoke' else None
                self.push(st, self.m.fns[self.m.aliases.get(fn, fn)], args, ins.get('i'), inv, ins.get('l', 0))
                return CONT
    return NOMODEL


class WhenCtx(EvCtx):
    def engine(self, **opts):
        e = EvCtx.engine(self, concrete_atomics=True, **opts)
        e.MAXSTEPS = 400000000
        e.preop = preop.__get__(e)
        e.vmodels['Retire'] = v_retire
        for f in self.m.fns.values():
            if REG(f):
                e.models[f.sn] = m_register
        return e


def histories(C, n, m='Here', overlap=True, **opts):
    work = []
    hs = init_handles()

    def begin(eng, st, vals):
        hs(eng, st, vals)
        if not overlap:
            st.user['noint'] = True
    for p in C.paths(n, init=begin, key='w', opaque=REG, **opts):
        work.append(p)
    while work:
        p = work.pop()
        att = p.st.user.get('att', ())
        if p.end != 'ret' or not att:
            yield p
            continue
        for core, cb in att:
            box = []

            def init(eng, st, vals, core=core, cb=cb):
                fire(eng, st, core, cb, m)
                eng.top(st).mark = core
            v = p.st.mem.get(cb[0], {}).get(cb[1])
            v = p.res(v[1])
            fn = p.eng.m.vtslots(p.eng.bases[v[0]].info, v[1]).get(m)
            if fn is None:
                raise AnalysisError('no %s of the combinator callback' % m)
            work += C.resume(p, fn, [cb, (core, 0)], init)


# ---------------------------------------------------------------- reading results

class Outcome:
    """what one complete history did"""

    def __init__(self, C, p, n):
        self.p = p
        self.o = Objs(p)
        self.bad = []
        m = p.eng.m
        sret = p.entry0_args[0]
        self.out = None
        h = rd(p, p.st.mem, sret[0], sret[1])
        self.handle = h
        if issym(h):
            self.out = h[0]
        self.cores = cores(p, n)
        self.iv = {}
        regs = [e for e in p.ev if e.k == 'call' and e.sn and re.match(r'yaclib::detail::BaseCore::SetCallbackImpl', e.sn)]
        firsts = [e for e in p.ev if e.k == 'phase']
        end0 = firsts[0].i if firsts else (p.ev[-1].i + 1 if p.ev else 0)
        self.regs = regs
        for k, e in enumerate(regs):
            c = base(p, e.args[0])
            if e.ret == 0:
                nx = [x.i for x in regs if x.i > e.i] + [end0]
                self.iv[c] = (e.i, min(nx))
        for e in p.ev:
            if e.k == 'fire':
                self.iv[e.core] = (e.i, 1 << 60)
            elif e.k == 'mark' and e.tag in self.iv:
                self.iv[e.tag] = (self.iv[e.tag][0], e.i)

    def state(self, c):
        p = self.p
        ro = ro_of(p, c)
        io = idx_off(p, c, ro)
        i, pay = initial(p, c, ro, io)
        return i, pay

    def res_at(self, b, off, io):
        p = self.p
        return content(p, p.st.mem, lambda a: obj_tok(self.o, a), b, off, io)


def races(p, regs):
    """conflicting accesses to memory of the combinator that no release/acquire chain orders.

    Actors are the creating thread and every later completion; a completion starts after the registration that let it in."""
    eng = p.eng
    start = {}
    vc = {0: {0: 1}}
    pend, fenced, sync = {}, {}, {}
    stack = [0]
    hist = {}
    bad = []

    def join(a, b):
        for k, v in b.items():
            if a.get(k, 0) < v:
                a[k] = v

    def heap(a):
        return issym(a) and eng.bases[a[0]].kind == 'new'

    def access(e, a, size, w, atomic):
        me = stack[-1]
        c = vc[me]
        for o in range(a[1], a[1] + min(size, 64)):
            h = hist.setdefault((a[0], o), [])
            for act, t, w2, at2, e2 in h:
                if act != me and (w or w2) and not (atomic and at2) and c.get(act, 0) < t:
                    if not [x for x in bad if x[0] is e]:
                        bad.append((e, e2))
            h[:] = [x for x in h if not (x[0] == me and x[2] == w and x[3] == atomic)] + [(me, c[me], w, atomic, e)]

    regset = {e.i: e for e in regs}
    for e in p.ev:
        me = stack[-1]
        c = vc[me]
        if e.k == 'fire':
            stack.append(e.core)
            vc[e.core] = dict(start.get(e.core, {}))
            vc[e.core][e.core] = 1
            continue
        if e.k == 'cont':
            stack.append(e.core)
            continue
        if e.k == 'letin' or e.k == 'vcall' and e.m == 'Submit':
            start[e.core if e.k == 'letin' else ('job', e.i)] = dict(c)
            c[me] += 1
            continue
        if e.k == 'mark' and len(stack) > 1 and e.tag == stack[-1]:
            stack.pop()
            continue
        if e.i in regset and e.ret:
            start[base(p, e.args[0])] = dict(c)
            c[me] += 1
            continue
        if e.k in ('ald', 'ast', 'rmw', 'cas', 'aload', 'astore'):
            a = p.res(e.addr)
            if not heap(a):
                continue
            o = (e.d['so'] if e.ok else e.d['fo']) if e.k == 'cas' else e.d.get('ord') or ''
            load = e.k in ('ald', 'aload', 'rmw', 'cas')
            store = e.k in ('ast', 'astore', 'rmw') or e.k == 'cas' and e.ok
            access(e, a, e.d.get('size') or 1, store, True)
            s = sync.get(a)
            if load and s:
                join(pend.setdefault(me, {}), s)
                if has_acq(o):
                    join(c, s)
            if store:
                rmw = e.k in ('rmw', 'cas')
                new = dict(s) if rmw and s else {}
                if has_rel(o):
                    join(new, c)
                    c[me] += 1
                elif me in fenced:
                    join(new, fenced[me])
                sync[a] = new
        elif e.k == 'fence' and not e.d.get('ss'):
            if has_acq(e.ord):
                join(c, pend.get(me, {}))
            if has_rel(e.ord):
                fenced[me] = dict(c)
                c[me] += 1
        elif e.k in ('ld', 'st'):
            a = p.res(e.addr)
            if heap(a):
                access(e, a, e.d.get('size') or 1, e.k == 'st', False)
        elif e.k == 'free':
            a = p.res(e.obj)
            if heap(a):
                for o in {x[1] for x in hist if x[0] == a[0]}:
                    access(e, (a[0], o), 1, True, False)
        elif e.k == 'call' and re.match(r'probe::(V|W|Er)::', e.sn or ''):
            for k, x in enumerate(e.args[:2]):
                x = p.res(x)
                if heap(x):
                    access(e, x, 1, k == 0, False)
    return bad


def obj_tok(o, a):
    return o.st[a][1] if a in o.st else None


def cores(p, n):
    """states of the inputs in input order"""
    a = [x for x in p.entry0_args[1:]]
    out = []
    if len(a) == 1 and n.array:
        for k in range(n.N):
            v = p.st.user.get(('init', a[0][0], 8 * k))
            if k == 0 and v is None:
                h = p.st.user.get('handles', {})
                v = (h[0][0], 0) if 0 in h else None
            v = p.res(v) if v is not None else None
            out.append(v[0] if issym(v) else None)
    else:
        h = p.st.user['handles']
        out = [h[i][0] for i in sorted(h)]
    return out


class Entry:
    def __init__(self, name):
        self.name = name
        g = re.match(r'(all|tup|join|any)_([lfn])', name)
        self.kind, self.pol = g.group(1), g.group(2)
        self.array = name.endswith(('_it', '_it3', '_its'))
        self.N = 3 if name.endswith('3') else 1 if '_one' in name else 2
        self.copy = '_copy' in name


def unmark(p):
    q = p
    while getattr(q, 'prev', None) is not None:
        q = q.prev
    p.entry0_args = q.args
    return p


BAD = ('uaf', 'doublefree', 'nullderef', 'recursion')


def judge(C, p, n):
    """[(category, message, event)] of one complete history of entry n"""
    unmark(p)
    if p.end == 'cut':
        return None
    bad = []
    try:
        return judge_all(C, p, n, bad)
    except (TypeError, KeyError, IndexError, AttributeError) as e:
        # a history that already went wrong need not be readable to its end
        if not bad:
            raise AnalysisError('%s: cannot read a history (%s)' % (n.name, e))
        return bad


def judge_all(C, p, n, bad):
    if p.end != 'ret':
        return [('once', 'a history ends by %s' % p.end, None)]
    for e in p.ev:
        if e.k in BAD:
            bad.append(('own', '%s' % e.k, e))
    O = Outcome(C, p, n)
    for msg, e in O.o.finish(keep=()):
        bad.append(('own', msg, e))
    if O.out is None:
        return bad + [('once', 'no valid future is returned', None)]
    cs = O.cores
    if None in cs or len(cs) != n.N:
        return bad + [('once', 'not every input is taken', None)]
    if n.N == 1 and n.kind == 'any' and O.out == cs[0]:
        # a single input is its own winner: the handle is passed on
        if O.regs or decs(p, O.out) or incs(p, O.out):
            bad.append(('own', 'the state of the only input is used although it is passed on', None))
        a = p.entry0_args[1]
        if rd(p, p.st.mem, a[0], a[1]) != 0:
            bad.append(('own', 'the only input is passed on and kept', None))
        return bad
    # inputs
    for k, c in enumerate(cs):
        r = [e for e in O.regs if base(p, e.args[0]) == c]
        if len(r) != 1:
            bad.append(('once', 'input %d is watched %d times' % (k, len(r)), None))
        d = len(decs(p, c)) - len(incs(p, c))
        if d != (0 if n.copy else 1):
            bad.append(('own', 'input %d is released %d times' % (k, d), None))
        if c in O.iv:
            early = [e for e in p.ev if e.i < O.iv[c][0] and (e.k in ('ld', 'st') and same_base(p, e.addr, c) and '_result' in fpath(p, e.addr) or e.k == 'vcall' and e.m == 'DecRef' and same(p, e.obj, c))]
            if early:
                bad.append(('own', 'input %d is used before it completed' % k, early[0]))
    # combinator and its parts are gone, the output lives
    live = reachable(p, O.out)
    freed = {base(p, e.obj) for e in p.ev if e.k == 'free'}
    for e in p.ev:
        if e.k == 'new':
            b = base(p, e.obj)
            if b not in freed and b not in live and b != O.out:
                bad.append(('own', 'memory of the combinator is never released', e))
            if b == O.out and b in freed:
                bad.append(('own', 'the output is released although its future exists', e))
    for e, e2 in races(p, O.regs)[:1]:
        bad.append(('race', 'not ordered after the access at %s' % e2.where(), e))
    pub = published(p, O.out)
    if len(pub) != 1:
        bad.append(('once', 'the output is set %d times' % len(pub), pub[1] if len(pub) > 1 else None))
        return bad
    if [x for x in cs if x not in O.iv]:
        return bad + [('once', 'an input never completes', None)]
    bad += verdict(C, O, n, pub[0])
    for a, (s, t) in O.o.st.items():
        if a[0] not in (O.out,) and a[0] not in live and a[0] not in cs and s in ('live', 'moved') and p.eng.bases[a[0]].kind == 'new':
            bad.append(('own', 'a value kept by the combinator is never destroyed', None))
    return bad


def reachable(p, b):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        for o, (s, v) in p.st.mem.get(x, {}).items():
            v = p.res(v)
            if s == 8 and issym(v) and v[0] not in seen and p.eng.bases[v[0]].kind == 'new':
                seen.add(v[0])
                todo.append(v[0])
    return seen


def verdict(C, O, n, pub):
    p, cs, iv = O.p, O.cores, O.iv
    st = [O.state(c) for c in cs]
    idx = [i for i, _ in st]
    ro = ro_of(p, O.out)
    io = idx_off(p, O.out, ro)
    oi = rd(p, p.st.mem, O.out, ro + io)
    if type(oi) is not int and n.pol != 'n':
        return [('what', 'the state of the output is not determined', None)]
    ok = [k for k in range(n.N) if idx[k] == 0]
    fail = [k for k in range(n.N) if idx[k] in (1, 2) and type(idx[k]) is int]
    unk = [k for k in range(n.N) if type(idx[k]) is not int]
    start = [iv[c][0] for c in cs]
    end = [iv[c][1] for c in cs]

    def within(k):
        return start[k] < pub.i < end[k] or start[k] < pub.i and end[k] >= pub.i

    def first(k, group):
        return all(end[j] >= start[k] for j in group if j != k)

    def last(k, group):
        return all(start[j] <= end[k] for j in group if j != k)

    def is_of(k):
        """the output is exactly the outcome of input k"""
        return outcome_of(O, n, k, oi, ro, io)
    alldone = all(pub.i > s for s in start)
    out = []
    if n.kind in ('all', 'tup', 'join'):
        if n.pol == 'n' or not fail and not unk:
            if not alldone:
                out.append(('when', 'the output completes before every input did', pub))
            if oi != 0:
                out.append(('what', 'no input fails (or failures are kept) and the output is %s' % STN.get(oi, 'undetermined'), pub))
            elif n.kind != 'join':
                out += elements(C, O, n, ro, io, st, pub)
            return out
        if not fail:
            return [('what', 'completes without looking at the state of every input', pub)]
        if oi == 0:
            return [('what', 'an input fails and the output is a value', pub)]
        win = [k for k in fail if is_of(k)]
        if not win:
            return [('what', 'the output is not the failure of any input', pub)]
        if not [k for k in win if first(k, fail + unk)]:
            return [('when', 'the output is not the first failure', pub)]
        if not [k for k in win if first(k, fail + unk) and within(k)]:
            return [('when', 'the output does not complete as soon as the first input fails', pub)]
        return []
    if n.pol == 'n':
        win = [k for k in range(n.N) if is_of(k)]
        if not win:
            return [('what', 'the output is not the outcome of any input', pub)]
        if not [k for k in win if first(k, range(n.N)) and within(k)]:
            return [('when', 'the output is not that of the first completed input, at its completion', pub)]
        return []
    if ok:
        win = [k for k in ok if is_of(k)]
        if not win:
            return [('what', 'an input has a value and the output is not the value of any input', pub)]
        if not [k for k in win if first(k, ok + unk) and within(k)]:
            return [('when', 'the output is not the first value, at its arrival', pub)]
        return []
    if unk:
        return [('what', 'completes without looking at the state of every input', pub)]
    win = [k for k in fail if is_of(k)]
    if not win:
        return [('what', 'every input fails and the output is not the failure of any', pub)]
    if n.pol == 'l':
        if not [k for k in win if last(k, fail)]:
            out.append(('when', 'the output is not the failure of the input that completed last', pub))
    elif not [k for k in win if first(k, fail)]:
        out.append(('when', 'the output is not the first failure', pub))
    if not alldone:
        out.append(('when', 'fails before every input did', pub))
    return out


def outcome_of(O, n, k, oi, ro, io):
    p = O.p
    i, pay = O.state(O.cores[k])
    if oi != i:
        return False
    if oi == 1:
        return rd(p, p.st.mem, O.out, ro) == pay[1]
    t = obj_tok(O.o, (O.out, ro))
    if oi == 2:
        return t == pay[2]
    if oi == 0:
        return void_at(p, O.cores[k]) or t == pay[0]
    return t == pay[0] or True


def void_at(p, c):
    n = [p.eng.m.cname(x) for o, x in p.st.hint.get(c, ()) if o == 0]
    return any('Core<void' in x for x in n)


def elements(C, O, n, ro, io, st, pub):
    """the value of the output lists the inputs by position"""
    p = O.p
    if void_at(p, O.out):
        return [] if all(void_at(p, c) for c in O.cores) else [('what', 'the output drops the values of the inputs', pub)]
    if n.kind == 'all':
        b, e = rd(p, p.st.mem, O.out, ro), rd(p, p.st.mem, O.out, ro + 8)
        if not issym(b) or not issym(e) or b[0] != e[0]:
            return [('what', 'the output has no elements', pub)]
        size = e[1] - b[1]
        if size <= 0 or size % n.N:
            return [('what', 'the output does not have one element per input', pub)]
        pos = [(b[0], b[1] + k * (size // n.N)) for k in range(n.N)]
    else:
        pos = tuple_pos(p, O.out, ro, n.N)
        if pos is None:
            raise AnalysisError('layout of the tuple of %s is unknown' % n.name)
    out = []
    for k in range(n.N):
        c = O.cores[k]
        i, pay = st[k]
        if pos[k] is None and (n.pol == 'n' or not void_at(p, c)):
            raise AnalysisError('layout of the tuple of %s is unknown' % n.name)
        cro = ro_of(p, c)
        cio = idx_off(p, c, cro)
        if n.pol == 'n':
            j = rd(p, p.st.mem, pos[k][0], pos[k][1] + cio)
            if j is None or (p.res(j) != p.res(i) if i is not None else True):
                out.append(('what', 'element %d does not have the state of input %d' % (k, k), pub))
                continue
            if i == 1 or type(i) is not int:
                if i == 1 and rd(p, p.st.mem, *pos[k]) != pay[1]:
                    out.append(('what', 'element %d is not the exception of input %d' % (k, k), pub))
            if i == 0 and not void_at(p, c) or i == 2:
                if obj_tok(O.o, pos[k]) != pay[i]:
                    out.append(('what', 'element %d is not the outcome of input %d' % (k, k), pub))
        elif not void_at(p, c):
            if obj_tok(O.o, pos[k]) != pay[0]:
                out.append(('what', 'element %d is not the value of input %d' % (k, k), pub))
    return out


def tuple_pos(p, b, ro, N):
    m = p.eng.m
    by = getattr(m, 'tuples', None)
    if by is None:
        by = m.tuples = {c['n'].replace(' ', ''): cid for cid, c in m.classes.items() if c['n'].startswith('std::tuple<')}
    for ho, cid in p.st.hint.get(b, ()):
        g = re.match(r'yaclib::Result<(std::tuple<.*>),probe::Er>$', m.cname(cid).replace(' ', ''))
        if ho != ro or not g or g.group(1) not in by:
            continue
        pos = {}
        tup_walk(m, by[g.group(1)], ro, pos)
        # an element without storage (Unit) has no entry
        return [(b, pos[k]) if k in pos else None for k in range(N)]
    return None


def tup_walk(m, cid, off, pos, depth=0):
    c = m.classes.get(cid)
    if c is None or depth > 24:
        return
    g = re.match(r'std::_Head_base<(\d+)[uU][lL]*,', c['n'])
    if g:
        pos.setdefault(int(g.group(1)), off)
        return
    for o, bid in c['b']:
        tup_walk(m, bid, off + o, pos, depth + 1)
    for o, name, tid, sz in c['m']:
        if tid in m.classes:
            tup_walk(m, tid, off + o, pos, depth + 1)


CAT = {
    'once': 'the output completes exactly once, and every input is watched exactly once',
    'own': 'every input is released exactly once after it completed, and nothing of the combinator is used afterwards or left behind',
    'what': 'the output is what the policy says: the elements in input order, or the outcome of the winning input',
    'race': 'accesses of overlapping completions to the combinator are ordered by its atomics',
    'when': 'the output completes at the completion the policy says, whatever the order and overlap of the others',
}


def when_rules(chk, C, pid, kinds, tier):
    rules = {c: chk.rule('%s.%s' % (pid, c), t) for c, t in CAT.items()}
    names = sorted(n for n in C.m.fns if re.match(r'(%s)_[lfn]' % '|'.join(kinds), n))
    if not names:
        raise AnalysisError('no combinator entry points')
    # two inputs: every overlap of completions; three inputs: every order, overlaps in the thorough tier
    tasks = []
    for name in names:
        for m in ('Here', 'Next'):
            if not name.endswith('3'):
                tasks.append((name, m, True))
            elif name.endswith('it3') or tier != 'quick':
                tasks.append((name, m, False))
                if name.endswith('it3') and (tier != 'quick' or m == 'Here') and not re.search(r'_.?s_it3$', name):
                    tasks.append((name, m, True))
    tasks.sort(key=lambda t: (not (t[2] and t[0].endswith('3')), not t[0].endswith('_3')))

    def one(t):
        name, m, overlap = t
        n = Entry(name)
        k = 0
        for p in histories(C, name, m, overlap, maxpaths=2000000, loop=n.N + 2):
            bad = judge(C, p, n)
            if bad is None:
                continue
            k += 1
            got = {}
            for cat, msg, e in bad:
                got.setdefault(cat, (msg, e))
            for cat, rid in rules.items():
                if cat in got:
                    msg, e = got[cat]
                    chk.ob(rid, False, '%s (%s)%s' % (name, m, ' at ' + e.where() if e is not None else ''), norm(msg), p)
                else:
                    chk.ob(rid, True, '')
        chk.ob(rules['once'], k > 0, name, 'no history completes')
    chk.parallel(tasks, one)


def empty_rules(chk, C, pid, kinds):
    R = chk.rule('%s.empty' % pid, 'an empty set of inputs gives an invalid future, without touching memory')
    names = sorted(n for n in C.m.fns if re.match(r'zero_(%s)' % '|'.join(kinds), n))
    for name in names:
        for p in C.paths(name, key='w', opaque=REG):
            a = p.args[0]
            h = rd(p, p.st.mem, a[0], a[1])
            ok = p.end == 'ret' and h == 0
            chk.ob(R, ok, name, 'the future is valid' if p.end == 'ret' else 'ends by %s' % p.end, p)
            left = [e for e in p.ev if e.k == 'new' and base(p, e.obj) not in {base(p, x.obj) for x in p.ev if x.k == 'free'}]
            chk.ob(R, not left and not [e for e in p.ev if e.k in BAD], name, 'memory is left behind', p)


def c09(chk, tier):
    C = WhenCtx(chk, 'when.cpp')
    when_rules(chk, C, 'C09', ('all', 'tup', 'join'), tier)
    empty_rules(chk, C, 'C09', ('all', 'join'))


def c10(chk, tier):
    C = WhenCtx(chk, 'when.cpp')
    when_rules(chk, C, 'C10', ('any',), tier)
