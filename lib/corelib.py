"""Histories of one pipeline step: every way the library can drive a continuation from attachment to completion.

A history is a chain of abstract paths: attach -> (run now | published) -> Here/Next by the producer -> (run | Submit)
-> Call/Drop by the executor -> (complete | registered on the inner state) -> Here/Next by the inner state.
The analysis walks library code only; the producer, the executor and the client callable are opaque."""
import re
from common import *
from typestate import Objs, handoffs
from engine import AnalysisError, issym, M64

HANDLE = re.compile(r'^yaclib::(Future|FutureOn|FutureBase|Task|SharedFuture|SharedFutureOn|SharedFutureBase|Promise|SharedPromise)<')


def offset(m, cid, name, depth=0):
    """offset of the (possibly nested) member `name`"""
    c = m.classes.get(cid)
    if c is None or depth > 12:
        return None
    for moff, mname, mtid, msz in c['m']:
        if mname == name:
            return moff
    for boff, bid in c['b']:
        r = offset(m, bid, name, depth + 1)
        if r is not None:
            return boff + r
    for moff, mname, mtid, msz in c['m']:
        if mtid in m.classes:
            r = offset(m, mtid, name, depth + 1)
            if r is not None:
                return moff + r
    return None


def handle_core(m, cid):
    """(offset of the pointer in the handle, class id of the state it points to)"""
    todo = [(0, cid)]
    while todo:
        o, c = todo.pop(0)
        k = m.classes.get(c)
        if k is None:
            continue
        for moff, mname, mtid, msz in k['m']:
            mm = re.match(r'_ZTSN6yaclib12IntrusivePtrI(.*)E$', str(mtid))
            if mm:
                t = mm.group(1)
                t = expand_subst(m, mtid)
                return o + moff, t
        todo += [(o + b, bid) for b, bid in k['b']]
    return None, None


def expand_subst(m, ptrcid):
    """class id of the pointee of IntrusivePtr class ptrcid, found by demangled name"""
    n = m.classes[ptrcid]['n']
    t = n[n.index('<') + 1:n.rindex('>')].strip()
    bn = by_name(m)
    return bn.get(t)


def by_name(m):
    r = getattr(m, '_byname', None)
    if r is None:
        r = m._byname = {}
        for c, k in m.classes.items():
            r.setdefault(k['n'], c)
    return r


def fpath(p, addr):
    """names of all members enclosing the address"""
    addr = p.res(addr)
    if not issym(addr):
        return []
    m = p.eng.m
    best = []
    for ho, cid in p.st.hint.get(addr[0], ()):
        c = m.classes.get(cid)
        if c and ho <= addr[1] < ho + max(c['s'], 1):
            f = [x[1] for x in m.field(cid, addr[1] - ho)]
            if len(f) > len(best):
                best = f
    return best


def on_fresh(eng, st, addr, v, size):
    k = ('init', addr[0], addr[1])
    if k not in st.user:
        st.user[k] = v
    if not issym(v):
        return
    name = leaf(eng, st, addr)
    if name == '_M_index':
        st.rng[v[0]] = (0, 2, 0, 2)
        eng.bases[v[0]].bits = 8
    elif name == '_executor' and size == 8:
        nonnull(eng, st, v)
    elif name == 'handle' and size == 8 and eng.bases[addr[0]].kind != 'arg':
        nonnull(eng, st, v)   # a future or task returned by client code is valid


def leaf(eng, st, addr):
    m = eng.m
    for ho, cid in st.hint.get(addr[0], ()):
        c = m.classes.get(cid)
        if c and ho <= addr[1] < ho + max(c['s'], 1):
            f = m.field(cid, addr[1] - ho)
            if f:
                if f[-1][1] == '_M_index':
                    return '_M_index'
                if any(x[1] == '_executor' for x in f):
                    return '_executor'
                if any(HANDLE.match(x[0]) for x in f):
                    return 'handle'
    return None


def nonnull(eng, st, v):
    if issym(v):
        st.ne[v[0]] = frozenset([0, M64])
        st.rng[v[0]] = (4096, 1 << 47, 4096, 1 << 47)


def init_handles(valid=True):
    """preconditions of the public API: handles are valid, their states exist"""
    def init(eng, st, vals):
        st.user['handles'] = {}
        fn = st.frames[0].fn
        sh = 1 if fn.args and fn.args[0].get('sret') else 0
        for i, t in enumerate(fn.pt[1:]):
            if not (isinstance(t, str) and t.startswith('*')):
                continue
            cid = t[1:]
            c = eng.m.classes.get(cid)
            if not c or not HANDLE.match(c['n']):
                continue
            off, core = handle_core(eng.m, cid)
            if off is None:
                continue
            if i == len(fn.pt) - 2 and i > 0 and fn.name in eng.outs:
                continue
            v = eng.sym('arg', 'core%d' % i)
            if valid:
                nonnull(eng, st, v)
            if core:
                eng.addhint(st, v[0], 0, core)
            eng.store(st, (vals[i + sh][0], vals[i + sh][1] + off), 8, v)
            st.user['handles'][i] = (v[0], core)
    return init


def promise_args(eng, st, fn, args):
    """arguments of a client callable that are promises (by value or by reference)"""
    if re.search(r'7PromiseI|13SharedPromiseI', fn.name.split('EclE')[0]):
        for a in args[1:]:
            a = eng.resolve(st, a)
            if issym(a):
                yield a


def m_client(self, st, f, ins, fn, args):
    """a client callable given a promise may keep it (taking it out of its argument) or leave it there"""
    if st.user.get('ptake') is None and any(True for _ in promise_args(self, st, fn, args)):
        s2 = st.fork()
        st.user['ptake'], s2.user['ptake'] = 0, 1
        return [st, s2]
    return NOMODEL


def after_call(eng, st, fn, args):
    if fn.sn == 'probe::Fn::operator()' and st.user.get('ptake') is not None:
        st.user['taken'] = st.user['ptake']
        if st.user.pop('ptake'):
            for a in promise_args(eng, st, fn, args):
                eng.store(st, a, 8, 0)


class SCtx(Ctx):
    """context whose engines know the API preconditions and snapshot memory at client calls"""

    def engine(self, **opts):
        e = Ctx.engine(self, **opts)
        e.on_fresh = on_fresh
        e.snap_on = frozenset(['probe::Fn::operator()'])
        e.outs = set()
        e.after_call = after_call
        e.models['probe::Fn::operator()'] = m_client
        return e


SIGS = {'value': 'VV', 'vref': 'VV', 'result': 'RV', 'rref': 'RV', 'rcref': 'RV', 'error': 'EV', 'exc': 'XV', 'retres': 'VR', 'retvoid': 'V-', 'retvoidres': 'R-',
        'errres': 'ER', 'fut': 'VA', 'futon': 'RA', 'sfut': 'VA', 'task': 'VA', 'taskerr': 'EA', 'futexc': 'XA', 'cerr': 'EV', 'cval': 'VV', 'cres': 'RV'}


class Hist:
    """one complete history of step K fed by src"""

    def __init__(self, p, K, src, mode, sig, e_arg):
        self.p, self.K, self.src, self.mode, self.sig, self.e_arg = p, K, src, mode, sig, e_arg
        self.tags = []

    def where(self):
        return '%s [%s]' % (self.p.entry, '/'.join(self.tags) or 'attach')


def vt(p, b):
    """virtual methods of the object at base b"""
    v = p.st.mem.get(b, {}).get(0)
    if v is None:
        return {}
    v = p.res(v[1])
    if not issym(v) or p.eng.bases[v[0]].kind != 'global':
        return {}
    return p.eng.m.vtslots(p.eng.bases[v[0]].info, v[1])


def news(p, pat):
    out = []
    for e in p.ev:
        if e.k == 'new':
            b = base(p, e.obj)
            if any(re.search(pat, p.eng.m.cname(c)) for o, c in p.st.hint.get(b, ()) if o == 0):
                out.append(b)
    return out


def same(p, v, b):
    v = p.res(v)
    return issym(v) and v[0] == b and v[1] == 0


def is_cb(p, addr):
    return '_callback' in fpath(p, addr) or fname(p, addr) == '_callback'


def kexec(p, b):
    """current content of the executor slot of state b"""
    for o, (s, v) in p.st.mem.get(b, {}).items():
        if s == 8 and '_executor' in fpath(p, (b, o)):
            return p.res(v)
    return None


def published(p, K, since=0):
    return [e for e in p.ev[since:] if (e.k in ('rmw', 'astore', 'ast') and p.res(e.val) == M64 or e.k == 'cas' and e.ok and p.res(e.des) == M64) and same_base(p, e.addr, K) and is_cb(p, e.addr)]


def same_base(p, v, b):
    v = p.res(v)
    return issym(v) and v[0] == b


def pending(p, K):
    """what the outside world may do next with step K: ('call',), ('here', state), ('done',), ('lost',)"""
    if any(e.k == 'free' and same(p, e.obj, K) for e in p.ev):
        return ('freed', None)
    if published(p, K):
        return ('done', None)
    last = None
    for e in p.ev:
        if e.k == 'vcall' and e.m == 'Submit' and same(p, e.args[1], K):
            last = ('call', e.obj)
        elif e.k == 'cas' and e.ok and is_cb(p, e.addr) and same(p, e.des, K):
            last = ('here', base(p, e.addr))
        elif e.k in ('astore', 'ast') and is_cb(p, e.addr) and same(p, e.val, K):
            last = ('here', base(p, e.addr))
        elif e.k == 'rmw' and e.rmw == 'xchg' and is_cb(p, e.addr) and same(p, e.val, K):
            last = ('here', base(p, e.addr))
        elif e.k == 'phase':
            last = None
    if last is None and p.ret is not None and same(p, p.ret, K):
        last = ('self', K)
    return last or ('lost', None)


def advance(C, p, K, entry_name, detach=False, next_too=True, depth=0):
    """all ways the history goes on; yields (path, tags)"""
    if p.end == 'cut':
        return
    if p.end != 'ret' or depth > 5:
        yield p, []
        return
    if p.ret is not None and p.ev and any(e.k == 'phase' for e in p.ev):
        # Here() returned a library callback: the loop that called it runs that callback next
        r = p.res(p.ret)
        if issym(r) and p.eng.bases[r[0]].kind == 'global' and not str(p.eng.bases[r[0]].info).startswith('_ZTV'):
            v = p.eng.gload(p.eng.bases[r[0]].info, r[1], 8)
            if v is not None:
                fn = p.eng.m.vtslots(p.eng.bases[v[0]].info, v[1]).get('Here')
                if fn:
                    for q in C.resume(p, fn, [r, (K, 0)], (lambda eng, st, vals: st.user.__setitem__('priv', frozenset([K]))) if detach else None):
                        for z, t in advance(C, q, K, entry_name, detach, next_too, depth + 1):
                            yield z, t
                    return
    kind, x = pending(p, K)
    slots = vt(p, K)
    todo = []
    if kind == 'call':
        todo = [('Call', [(K, 0)], None), ('Drop', [(K, 0)], None)]
    elif kind == 'self':
        todo = [('Here', [(K, 0), (K, 0)], None)]
    elif kind == 'here':
        def ready(eng, st, vals):
            o = cb_off(eng, st, x)
            if o is not None:
                eng.store(st, (x, o), 8, M64)
        todo = [('Here', [(K, 0), (x, 0)], ready)]
        if next_too:
            todo.append(('Next', [(K, 0), (x, 0)], ready))
    if not todo:
        yield p, []
        return
    for m, args, ini in todo:
        fn = slots.get(m)
        if fn is None:
            if m == 'Next':
                continue
            raise AnalysisError('%s: no virtual %s of the step' % (entry_name, m))

        def init(eng, st, vals, ini=ini):
            if detach:
                st.user['priv'] = frozenset([K])
            if ini:
                ini(eng, st, vals)
        for q in C.resume(p, fn, args, init):
            for r, t in advance(C, q, K, entry_name, detach, next_too, depth + 1):
                yield r, [m] + t


def cb_off(eng, st, b):
    for ho, cid in st.hint.get(b, ()):
        o = offset(eng.m, cid, '_callback')
        if o is not None:
            return ho + o
    return None


def ro_of(p, b):
    """(offset of the Result in state b, offset of the index in the Result, class id of the value type name)"""
    m = p.eng.m
    for ho, cid in sorted(p.st.hint.get(b, ()), key=lambda x: -(m.classes.get(x[1]) or {'s': 0})['s']):
        o = offset(m, cid, '_result')
        if o is not None:
            i = m.classes.get(cid)
            return ho + o
    return None


IDX = {}


def idx_off(p, b, ro):
    """offset (from the Result) of the variant index, from the class layout of state b"""
    m = p.eng.m
    # the widest class first: the result of a combinator holds the results of its inputs
    for ho, cid in sorted(p.st.hint.get(b, ()), key=lambda x: -(m.classes.get(x[1]) or {'s': 0})['s']):
        c = m.classes.get(cid)
        if not c:
            continue
        for o in range(ro, ho + c['s']):
            if o - ho < 0:
                continue
            f = m.field(cid, o - ho)
            if f and f[-1][1] == '_M_index' and f[-1][2] == 0:
                return o - ro
    return None


def rd(p, mem, b, o):
    e = mem.get(b, {}).get(o)
    return p.res(e[1]) if e else None


def canon(p, v):
    """normalise a value: first-loaded contents of memory are named by where they came from"""
    v = p.res(v)
    return v


def content(p, mem, objs_get, b, ro, io):
    """(index, payload token) held by the Result at b+ro"""
    i = rd(p, mem, b, ro + io)
    if i is None:
        return None, None
    return i, payload(p, mem, objs_get, b, ro, i)


def payload(p, mem, objs_get, b, ro, i):
    if i == 0 or i == 2:
        t = objs_get((b, ro))
        return t
    if i == 1:
        return rd(p, mem, b, ro)
    return None


def initial(p, b, ro, io):
    """(index, {index: payload}) of a Result the library received from outside at b+ro"""
    i = p.st.user.get(('init', b, ro + io))
    i = p.res(i) if i is not None else None
    x = p.st.user.get(('init', b, ro))
    return i, {0: ('init', (b, ro)), 1: p.res(x) if x is not None else None, 2: ('init', (b, ro))}


# ---------------------------------------------------------------- the oracle of one step

class StepCheck:
    """compares a completed history with what the step's signature and mode say it must do"""

    def __init__(self, C, h):
        self.C, self.h = C, h
        self.bad = []   # (category, message, event)
        p, K, src = h.p, h.K, h.src
        self.objs = Objs(p)
        self.kind = pending(p, K)[0]
        m = p.eng.m
        detach = h.detach
        self.detach = detach
        if p.end != 'ret':
            self.b('lost', 'the step ends in %s instead of completing' % p.end)
            return
        for e in p.ev:
            if e.k in ('uaf', 'doublefree', 'nullderef', 'recursion'):
                self.b('mem', '%s %s' % (e.k, p.fmt(e.d.get('addr') or e.d.get('obj') or 0)), e)
        for msg, e in self.objs.finish():
            self.b('mem', msg, e)
        for e, x, msg in handoffs(p, shared=lambda b: is_shared(p, b)):
            self.b('mem', msg, e)
        if self.kind == 'lost':
            self.b('lost', 'the step neither completes nor registers anything that will complete it')
            return
        if detach and self.kind != 'freed':
            self.b('leak', 'the state of the detached step is not released')
        if not detach and self.kind == 'freed':
            self.b('mem', 'the step releases its own state, which the future still owns')
        pub = published(p, K)
        if len(pub) != 1:
            self.b('dup' if pub else 'lost', 'result published %d times' % len(pub))
        self.placement()
        self.routing()
        self.ownership()

    def b(self, cat, msg, e=None):
        self.bad.append((cat, msg, e))

    # --- where it runs
    def placement(self):
        h, p, K = self.h, self.h.p, self.h.K
        subs = [e for e in p.ev if e.k == 'vcall' and e.m == 'Submit']
        mine = [e for e in subs if same(p, e.args[1], K)]
        if len(mine) != len(subs):
            self.b('place', 'submits something other than the step', [e for e in subs if e not in mine][0])
        want = None
        se = p.st.user.get(('init', h.src, self.exec_off(h.src))) if h.src is not None else None
        if h.mode in ('on',):
            want = h.e_arg
        elif h.mode == 'inh':
            want = se
        if h.mode == 'runinl':
            pass
        elif h.mode in ('on', 'inh', 'run'):
            if len(mine) != 1:
                self.b('place', 'submitted %d times to its executor instead of once' % len(mine))
            for e in mine:
                w = want if h.mode not in ('run',) else h.e_arg
                if w is not None and p.res(e.obj) != p.res(w):
                    self.b('place', 'submitted to %s instead of %s' % (p.fmt(e.obj), p.fmt(w)), e)
        elif mine:
            self.b('place', 'an inline step is submitted', mine[0])
        # what later steps inherit
        if not self.detach:
            x = kexec(p, K)
            if h.mode in ('on', 'run', 'direct'):
                w = h.e_arg
            else:
                w = se
            if w is not None and (x is None or p.res(x) != p.res(w)):
                self.b('place', 'the executor later steps inherit is %s instead of %s' % (p.fmt(x) if x is not None else 'lost', p.fmt(w)))

    def exec_off(self, b):
        p = self.h.p
        for ho, cid in p.st.hint.get(b, ()):
            o = offset(p.eng.m, cid, '_executor')
            if o is not None:
                return ho + o
        return None

    # --- what it computes
    def routing(self):
        h, p, K = self.h, self.h.p, self.h.K
        o = self.objs
        argk, retk = SIGS[h.sig]
        dropped = 'Drop' in h.tags
        calls = o.calls
        if h.src is not None:
            ro = ro_of(p, h.src)
            io = idx_off(p, h.src, ro)
            si, spay = initial(p, h.src, ro, io)
        else:
            ro, si, spay = None, 0, {0: None}
        src = h.src
        if dropped:
            si, spay, src = 2, {2: None}, None
        if len(calls) > 1:
            self.b('dup', 'the callable is invoked %d times' % len(calls), calls[1][0])
        want = None
        if argk == 'R' or argk == '0':
            want = True if not (argk == '0' and h.src is None and dropped) else None
            if argk == '0':
                want = type(si) is int and si == 0 if not dropped else False
        else:
            if type(si) is not int:
                self.b('route', 'completes without looking at the state of the input')
            else:
                want = si == {'V': 0, 'X': 1, 'E': 2}[argk]
        if want is True and not calls:
            self.b('route', 'input %s: the callable is not invoked' % STN.get(si, 'any'))
            return
        if want is False and calls:
            self.b('route', 'input %s: the callable is invoked' % STN.get(si, si), calls[0][0])
            return
        ki = kpay = None
        kvoid = True
        if not self.detach:
            kro = ro_of(p, K)
            kio = idx_off(p, K, kro)
            ki, kpay = content(p, p.st.mem, lambda a: o.st.get(a, ('unk', None))[1] if a in o.st else None, K, kro, kio)
            if type(ki) is not int:
                self.b('route', 'the state of the result is never set')
                return
        if not calls:
            if self.detach:
                return
            if type(si) is int and ki != si:
                self.b('route', 'input %s passes through as %s' % (STN.get(si), STN.get(ki)))
            elif ki == 1 and spay.get(1) is not None and kpay != spay[1]:
                self.b('route', 'the exception that passes through is not the one of the input')
            elif ki in (0, 2) and kpay is not None and spay.get(ki) is not None and kpay != spay[ki]:
                self.b('route', 'the %s that passes through is not the one of the input' % STN[ki])
            elif ki == 2 and spay.get(2) is not None and self.has_er(K) and kpay is None:
                self.b('route', 'the error that passes through is not constructed')
            return
        ev, fa, ft, params = calls[0]
        if ft != self.fn_token():
            self.b('route', 'invokes something other than the attached callable', ev)
        # argument
        if params and argk in 'VRXE':
            self.argument(ev, params[0], argk, src, ro, si, spay, dropped)
        threw = any(e.k == 'thrown' and e.src is not None and e.src.i == ev.i for e in p.ev)
        if self.detach:
            return
        if threw:
            ce = [e for e in p.ev if e.k == 'call' and e.sn == 'std::current_exception' and e.i > ev.i]
            x = None
            if ce:
                a = p.res(ce[0].args[0]) if ce[0].sret else None
                x = p.st.user.get(('init', a[0], a[1])) if a else None
                x = p.res(x) if x is not None else None
            if ki != 1:
                self.b('exc', 'the callable throws and the result is %s, not Exception' % STN.get(ki), ev)
            elif x is None or kpay != x:
                self.b('exc', 'the stored exception is not the one thrown by the callable', ev)
            return
        if retk == '-':
            if ki != 0:
                self.b('route', 'the callable returns and the result is %s' % STN.get(ki), ev)
        elif retk == 'V':
            if ki != 0 or kpay != ('result', ev.i):
                self.b('route', 'the result is not the value the callable returned (%s)' % STN.get(ki), ev)
        elif retk == 'R':
            a = p.res(ev.args[0])
            ri, rpay = initial(p, a[0], a[1], kio)
            self.flow(ki, kpay, ri, rpay, 'the Result the callable returned', ev)
        elif retk == 'A':
            inner = self.inner(ev)
            if inner is None:
                self.b('unwrap', 'the returned future is never looked at', ev)
                return
            iro = ro_of(p, inner)
            if iro is None:
                iro = kro
            ri, rpay = initial(p, inner, iro, kio)
            self.flow(ki, kpay, ri, rpay, 'the result of the returned future', ev, 'unwrap')

    def has_er(self, b):
        return False

    def flow(self, ki, kpay, ri, rpay, what, ev, cat='route'):
        if type(ri) is not int:
            self.b(cat, 'the result is not %s' % what, ev)
        elif ki != ri:
            self.b(cat, 'the result is %s while %s is %s' % (STN.get(ki), what, STN.get(ri)), ev)
        elif ki == 1 and kpay != rpay[1]:
            self.b(cat, 'the exception is not the one in %s' % what, ev)
        elif ki == 0 and kpay is not None and kpay != rpay[0]:
            self.b(cat, 'the value is not the one in %s' % what, ev)

    def inner(self, ev):
        """the state behind the future returned by the callable"""
        p = self.h.p
        a = p.res(ev.args[0])
        v = p.st.user.get(('init', a[0], a[1]))
        if v is None:
            return None
        v = p.res(v)
        return v[0] if issym(v) else None

    def fn_token(self):
        return self.h.fn_tok

    def argument(self, ev, par, argk, src, ro, si, spay, dropped):
        p = self.h.p
        x, tok = par
        if argk == 'V':
            if tok != spay.get(0):
                self.b('route', 'the argument is not the input value', ev)
        elif argk == 'E':
            if spay.get(2) is not None and tok is not None and self.er_typed(ev) and tok != spay[2]:
                self.b('route', 'the argument is not the input error', ev)
        elif argk == 'X':
            if x is not None:
                v = rd(p, ev.snap, x[0], x[1])
                if spay.get(1) is not None and v != spay[1]:
                    self.b('route', 'the argument is not the input exception', ev)
        elif argk == 'R':
            if x is None:
                return
            if src is not None and x == (src, ro):
                return
            io = idx_off(p, self.h.src, ro) if self.h.src is not None else None
            if io is None:
                return
            i = rd(p, ev.snap, x[0], x[1] + io)
            if type(si) is int and i != si:
                self.b('route', 'the Result argument is %s while the input is %s' % (STN.get(i, i), STN.get(si)), ev)
            elif type(si) is int and si == 1 and spay.get(1) is not None and rd(p, ev.snap, x[0], x[1]) != spay[1]:
                self.b('route', 'the exception in the Result argument is not the input exception', ev)
            elif type(si) is int and si == 0 and tok != spay[0]:
                self.b('route', 'the value in the Result argument is not the input value', ev)
            elif type(si) is not int and i != si:
                self.b('route', 'the Result argument is not the input', ev)

    def er_typed(self, ev):
        return 'probe::Er' in self.h.p.eng.m.fns[ev.name].dn

    # --- what it releases
    def ownership(self):
        h, p, K = self.h, self.h.p, self.h.K
        o = self.objs
        fnd = [d for d in o.destroyed if d[1] == self.fn_token() and d[0][0] == K]
        if len(fnd) != 1:
            self.b('leak' if not fnd else 'mem', 'the stored callable is destroyed %d times' % len(fnd))
        for a, (s, t) in o.st.items():
            if s in ('live', 'moved') and a[0] == K and p.eng.bases[K].kind == 'new' and t == self.fn_token():
                self.b('leak', 'the stored callable is still alive after completion')
        if h.src is not None:
            inc, dec = refs(p, h.src)
            sh = is_shared(p, h.src)
            want = 0 if sh else -1
            if inc - dec != want:
                self.b('leak' if inc - dec > want else 'mem', 'the input state gets %d IncRef and %d DecRef (expected balance %d)' % (inc, dec, want))
        if SIGS[h.sig][1] == 'A' and o.calls:
            threw = any(e.k == 'thrown' and e.src is not None and e.src.i == o.calls[0][0].i for e in p.ev)
            if not threw:
                b = self.inner(o.calls[0][0])
                if b is not None:
                    inc, dec = refs(p, b)
                    if inc - dec != -1:
                        self.b('leak' if inc - dec > -1 else 'mem', 'the state of the returned future gets %d IncRef and %d DecRef (one owned reference)' % (inc, dec))
        self.executors()

    def executors(self):
        """every executor reference taken is held by a slot or released"""
        h, p = self.h, self.h.p
        bal = {}
        for e in p.ev:
            if e.k == 'vcall' and e.m in ('IncRef', 'DecRef') and self.is_exec(e.obj):
                v = p.res(e.obj)
                bal[v] = bal.get(v, 0) + (1 if e.m == 'IncRef' else -1)
        slots = {}
        init = {}
        for b in (h.K, h.src):
            if b is None:
                continue
            if b == h.K and self.kind == 'freed':
                continue
            x = kexec(p, b)
            if x is not None and issym(x):
                slots[x] = slots.get(x, 0) + 1
        if h.src is not None:
            v = p.st.user.get(('init', h.src, self.exec_off(h.src)))
            if v is not None:
                v = p.res(v)
                init[v] = init.get(v, 0) + 1
        for v in set(bal) | set(slots) | set(init):
            if not issym(v) or p.eng.bases[v[0]].kind == 'global':
                continue
            if bal.get(v, 0) != slots.get(v, 0) - init.get(v, 0):
                self.b('leak' if bal.get(v, 0) > slots.get(v, 0) - init.get(v, 0) else 'mem',
                       'executor %s: reference balance %+d but %d slots hold it (%d before)' % (p.fmt(v), bal.get(v, 0), slots.get(v, 0), init.get(v, 0)))

    def is_exec(self, v):
        p, h = self.h.p, self.h
        v = p.res(v)
        if not issym(v):
            return False
        if h.e_arg is not None and v == p.res(h.e_arg):
            return True
        if h.src is not None:
            s = p.st.user.get(('init', h.src, self.exec_off(h.src)))
            if s is not None and p.res(s) == v:
                return True
        return any('IExecutor' in c for o, c in p.st.hint.get(v[0], ()))


STN = {0: 'Value', 1: 'Exception', 2: 'Error', 3: 'Empty', None: 'unset'}


def refs(p, b):
    inc = sum(1 for e in p.ev if e.k == 'vcall' and e.m == 'IncRef' and same(p, e.obj, b))
    dec = sum(1 for e in p.ev if e.k == 'vcall' and e.m == 'DecRef' and same(p, e.obj, b))
    return inc, dec


def is_shared(p, b):
    return any('detail::SharedCore' in p.eng.m.cname(c) for o, c in p.st.hint.get(b, ()))


MODES = {  # probe entry prefix -> (placement, lazy, detach)
    'uinl': ('inline', False, False), 'uon': ('on', False, False), 'lazy': ('on', True, False), 'lazyinl': ('inline', True, False), 'uoninh': ('inh', False, False),
    'uoninl': ('inline', False, False), 'son': ('on', False, False), 'sinl': ('inline', False, False), 'soninh': ('inh', False, False), 'udetinl': ('inline', False, True),
    'udeton': ('on', False, True), 'uondet': ('inh', False, True), 'ssubinl': ('inline', False, True), 'ssubon': ('on', False, True)}


def step_entries(m):
    for n in sorted(m.fns):
        mm = re.match(r'att_([a-z]+)_([a-z]+)$', n)
        if mm and m.fns[n].blocks and mm.group(1) in MODES and mm.group(2) in SIGS:
            yield n, mm.group(1), mm.group(2)


def step_histories(C, n, mode, sig, next_too=True):
    place, lazy, detach = MODES[mode]
    fn = C.m.fns[n]
    opts = {'loop': 2} if mode.startswith('s') else {}
    for p in C.paths(n, init=init_handles(), key='h', **opts):
        e_arg = fn_arg = None
        for i, t in enumerate(fn.pt[1:]):
            if t == '*_ZTSN6yaclib9IExecutorE':
                e_arg = p.args[i]
            elif isinstance(t, str) and '5probe2FnI' in t:
                fn_arg = p.args[i]
        src = p.st.user['handles'][0][0]
        ks = news(p, r'detail::Core<')
        if p.end == 'cut' or (e_arg is not None and p.eng.bases[p.res(e_arg)[0]].kind == 'global'):
            continue  # a given executor is some executor other than the built-in inline one (analysed on its own)
        if len(ks) != 1:
            yield None, p, 'the step is built from %d states' % len(ks)
            continue
        K = ks[0]
        for q, tags in advance(C, p, K, n, detach, next_too):
            h = Hist(q, K, src, place, sig, e_arg)
            h.tags = tags
            h.detach = detach
            h.lazy = lazy
            h.fn_tok = ('init', fn_arg)
            h.first = p
            h.entry = n
            yield h, q, None


# ---------------------------------------------------------------- pipeline heads

HEADSIG = {'v': '0V', 'r': '0R', 'f': '0A', 'sf': '0A', 't': '0A'}
for _k, _v in HEADSIG.items():
    SIGS['head_' + _k] = _v


def head_entries(m):
    for n in sorted(m.fns):
        mm = re.match(r'(run|sched)_(on|inl)_([a-z]+)$', n)
        if mm and m.fns[n].blocks and mm.group(3) in HEADSIG:
            yield n, mm.group(1), mm.group(2), 'head_' + mm.group(3)


def head_histories(C, n, kind, pl, sig):
    fn = C.m.fns[n]
    for p in C.paths(n, init=init_handles(), key='h'):
        e_arg = fn_arg = None
        for i, t in enumerate(fn.pt[1:]):
            if t == '*_ZTSN6yaclib9IExecutorE':
                e_arg = p.args[i]
            elif isinstance(t, str) and '5probe2FnI' in t:
                fn_arg = p.args[i]
        ks = news(p, r'detail::Core<')
        if p.end == 'cut' or (e_arg is not None and p.eng.bases[p.res(e_arg)[0]].kind == 'global'):
            continue
        if len(ks) != 1:
            yield None, p, 'the step is built from %d states' % len(ks)
            continue
        K = ks[0]

        def mk(q, tags, place):
            h = Hist(q, K, None, place, sig, e_arg)
            h.tags, h.detach, h.lazy, h.fn_tok, h.first, h.entry = tags, False, kind == 'sched', ('init', fn_arg), p, n
            return h
        if kind == 'run':
            for q, tags in advance(C, p, K, n):
                yield mk(q, tags, 'run' if pl == 'on' else 'runinl'), q, None
            continue
        slots = vt(p, K)
        for m, args in (('Call', [(K, 0)]), ('Drop', [(K, 0)]), ('Here', [(K, 0), None]), ('Next', [(K, 0), None])):
            f = slots.get(m)
            if f is None:
                if m == 'Next':
                    continue
                raise AnalysisError('%s: no virtual %s' % (n, m))
            if args[-1] is None:
                args[-1] = p.eng.sym('arg', 'awaiter')
            for q in C.resume(p, f, args):
                for r, t in advance(C, q, K, n):
                    h = mk(r, [m] + t, ('run' if pl == 'on' else 'runinl') if m in ('Here', 'Next') else 'direct')
                    yield h, r, None


def started(p):
    """the client callable was invoked, the step submitted, registered or completed on this path"""
    for e in p.ev:
        if e.k == 'call' and e.sn == 'probe::Fn::operator()':
            return e
        if e.k == 'vcall' and e.m in ('Submit', 'Call', 'Drop', 'Here', 'Next'):
            return e
    return None


def cas_or_xchg(p, b):
    """successful atomic replacements of the callback word of state b: [(event, new value, old value)]"""
    out = []
    for e in p.ev:
        if e.k == 'cas' and e.ok and is_cb(p, e.addr) and same_base(p, e.addr, b):
            out.append((e, p.res(e.des), p.res(e.exp)))
        elif e.k == 'rmw' and e.rmw == 'xchg' and is_cb(p, e.addr) and same_base(p, e.addr, b):
            out.append((e, p.res(e.val), p.res(e.old)))
        elif e.k == 'astore' and is_cb(p, e.addr) and same_base(p, e.addr, b):
            out.append((e, p.res(e.val), None))
    return out


def seen_result(p, b, upto=None):
    """events at which the path learns, with acquire ordering, that the result of state b is present"""
    out = []
    fences = []
    relaxed = []
    for e in p.ev:
        if upto is not None and e.i >= upto:
            break
        if e.k == 'phase' and len(e.vals) > 1 and same_base(p, e.vals[1], b):
            out.append(e)   # run as a callback of b, after b was fulfilled
        if e.k == 'fence' and has_acq(e.ord):
            if any(r for r in relaxed):
                out.append(e)
        if e.d.get('addr') is None or not same_base(p, e.addr, b) or not is_cb(p, e.addr):
            continue
        if e.k == 'aload' and (p.decide_eq(e.val, M64) is True or (not is_shared(p, b) and p.decide_eq(e.val, 0) is False)):
            # at the only consumer of a unique state a word that is not empty holds the result
            (out if has_acq(e.ord) else relaxed).append(e)
        elif e.k == 'cas' and not e.ok:
            full = p.decide_eq(e.old, M64) is True or (not e.weak and p.res(e.exp) == 0 and p.decide_eq(e.old, 0) is False and not is_shared(p, b))
            if full:
                (out if has_acq(e.fo) else relaxed).append(e)
        elif e.k == 'rmw' and p.decide_eq(e.old, M64) is True:
            (out if has_acq(e.ord) else relaxed).append(e)
    return out


def result_touches(p, b):
    """events that read or hand out the result storage of state b"""
    ro = ro_of(p, b)
    if ro is None:
        return
    size = 0
    m = p.eng.m
    for ho, cid in p.st.hint.get(b, ()):
        c = m.classes.get(cid)
        if c:
            size = max(size, ho + c['s'])

    def inside(v):
        v = p.res(v)
        return issym(v) and v[0] == b and ro <= v[1] < size
    for e in p.ev:
        if e.k in ('ld', 'ald', 'aload') and inside(e.addr) and not is_cb(p, e.addr):
            yield e
        elif e.k in ('call', 'icall') and any(inside(a) for a in e.args):
            yield e
