"""C04: happens-before obligations of every hand-off, and exclusion of accesses after an object was given up."""
from rules_task import *
from rules_exe import XCtx, strand_rules, pool_rules, list_rules
from rules_event import EvCtx, Flag, WAITS, wait_rules, event_rules, blocking_rules, await_rules, group_rules
from rules_mutex import mutex_rules, guard_rules
from rules_shared import shared_rules, stack_rules
import rules_when as W
import rules_core as K


class Only:
    """passes on the obligations about order, exclusion and use after hand-over; the others belong to other properties"""

    MSG = re.compile(r'acquir|with (release|acquire)|after releasing|without release|does not release what|does not release$|leaving does not release|releas\w* operation|order(s|ed)?\b.*%s|published with|not ordered|exclu|visible|'
                     r'without (its|the) (mutex|spinlock)|under the (\w+ )?(mutex|spinlock)|outside|used after|touched after|read after|written after|modified after|is changed|'
                     r'after its reference|after it (was|may|is)|after the|afterwards|before it (is|was|stopped)|before its (result|link)|before the (count|state|callback)|overwrit|still touch|may still|'
                     r'freed before|use of|access|released while|while still|stack may be used|not protected|in (one|different) critical|plain store|torn')

    def __init__(self, chk):
        self.chk = chk
        self.text = {}

    def rule(self, rid, text):
        self.text[rid] = text
        return rid

    def ob(self, rid, ok, where, msg='', path=None):
        if self.MSG.search(msg):
            self.chk.rule(rid, self.text.get(rid, ''))
            self.chk.ob(rid, ok, where, msg, path)
        return ok

    def __getattr__(self, n):
        return getattr(self.chk, n)


def all_vtables(m):
    return [g for g in m.globals if g.startswith('_ZTV')]


DTOR = lambda f: '~' in f.sn.split('::')[-1]


def ref_rules(chk, C, pid, seen):
    rd = chk.rule(pid + '.decref', 'giving up a reference releases; the last one acquires before the object is destroyed, and nothing touches it otherwise')
    rg = chk.rule(pid + '.getref', 'a reference count that decides about moving the value is read with acquire')
    ri = chk.rule(pid + '.incref', 'a reference is added by an atomic increment')
    todo = {'DecRef': set(), 'GetRef': set(), 'IncRef': set()}
    for g in all_vtables(C.m):
        v = C.m.vtslots(g)
        for k in todo:
            if v.get(k):
                todo[k].add(C.m.aliases.get(v[k], v[k]))
    n = 0
    for f in sorted(todo['DecRef']):
        fn = C.m.fns.get(f)
        if fn is None or not fn.blocks:
            continue
        key = (fn.sn, re.sub(r'I.*', '', f))
        for p in C.paths(f, opaque=DTOR, key='ref'):
            b = base(p, p.args[0])
            rm = [e for e in p.ev if e.k in ('rmw', 'cas') and base(p, e.addr) == b and (e.k == 'rmw' or e.ok)]
            gone = [e for e in p.ev if e.k == 'free' and base(p, e.obj) == b or e.k in ('call', 'vcall') and (e.k == 'call' and '~' in (e.d.get('sn') or '') or e.k == 'vcall' and e.m is None)
                    and any(base(p, a) == b for a in e.args)]
            if not rm and not any(e.k in ('ald', 'aload') and base(p, e.addr) == b for e in p.ev):
                continue     # not counted
            n += 1
            if rm:
                chk.ob(rd, has_rel(rm[0].ord if rm[0].k == 'rmw' else rm[0].so), '%s at %s' % (fn.sn, rm[0].where()), 'a reference is given up without release', p)
                chk.ob(rd, len(rm) == 1, '%s at %s' % (fn.sn, rm[-1].where()), 'the counter is changed %d times after one reference was given up' % len(rm), p)
            else:
                chk.ob(rd, bool(gone), fn.sn, 'a reference is given up without touching the counter', p)
            if gone:
                i0 = rm[0].i if rm else -1
                acq = any(has_acq(e.ord if e.k == 'rmw' else e.so) for e in rm) or any(e.k == 'fence' and has_acq(e.ord) and i0 < e.i < gone[0].i for e in p.ev) \
                    or any(e.k in ('ald', 'aload') and base(p, e.addr) == b and has_acq(e.ord) and i0 < e.i < gone[0].i for e in p.ev)
                chk.ob(rd, acq, '%s at %s' % (fn.sn, gone[0].where()), 'the object is destroyed without acquiring the accesses of the former owners', p)
            elif rm:
                late = [e for e in p.ev if e.i > rm[0].i and e.k in ('ld', 'st', 'ald', 'ast', 'aload', 'astore', 'call', 'vcall', 'rmw', 'cas') and
                        (base(p, e.addr) == b if e.k not in ('call', 'vcall') else any(base(p, a) == b for a in e.args))]
                chk.ob(rd, not late, '%s at %s' % (fn.sn, late[0].where() if late else ''), 'the object is touched after its reference was given up', p)
    for f in sorted(todo['GetRef']):
        fn = C.m.fns.get(f)
        if fn is None or not fn.blocks:
            continue
        for p in C.paths(f, key='ref'):
            b = base(p, p.args[0])
            for e in p.ev:
                if e.k in ('ald', 'aload') and base(p, e.addr) == b:
                    n += 1
                    fen = any(x.k == 'fence' and has_acq(x.ord) and x.i > e.i for x in p.ev)
                    chk.ob(rg, has_acq(e.ord) or fen, '%s at %s' % (fn.sn, e.where()), 'the number of references is read without acquire', p)
                elif e.k == 'ld' and base(p, e.addr) == b:
                    chk.ob(rg, False, '%s at %s' % (fn.sn, e.where()), 'the number of references is read by a plain access', p)
    for f in sorted(todo['IncRef']):
        fn = C.m.fns.get(f)
        if fn is None or not fn.blocks:
            continue
        for p in C.paths(f, key='ref'):
            b = base(p, p.args[0])
            w = [e for e in p.ev if e.k in ('st', 'ast', 'astore', 'rmw', 'cas') and base(p, e.addr) == b and (e.k != 'cas' or e.ok)]
            if w:
                chk.ob(ri, len(w) == 1 and w[0].k in ('rmw', 'cas'), '%s at %s' % (fn.sn, w[0].where()), 'a reference is added by separate accesses of the counter', p)
    return n


def when_race(chk, pid, tier):
    C = W.WhenCtx(chk, 'when.cpp')
    r = chk.rule(pid + '.when', 'accesses of overlapping completions to the combinator are ordered by its atomics')
    names = sorted(n for n in C.m.fns if re.match(r'(all|tup|join|any)_[lfn]', n) and not n.endswith('3'))
    tasks = [(n, m) for n in names for m in (('Here',) if tier == 'quick' else ('Here', 'Next'))]

    def one(t):
        name, m = t
        n = W.Entry(name)
        k = 0
        for p in W.histories(C, name, m, True, maxpaths=2000000, loop=n.N + 2):
            bad = W.judge(C, p, n)
            if bad is None:
                continue
            k += 1
            rc = [x for x in bad if x[0] == 'race']
            chk.ob(r, not rc, '%s (%s)%s' % (name, m, ' at ' + rc[0][2].where() if rc and rc[0][2] is not None else ''), norm(rc[0][1]) if rc else '', p)
        chk.ob(r, k > 0, name, 'no history completes')
    chk.parallel(tasks, one)


def c04(chk, tier):
    o = Only(chk)
    pid = 'C04'
    C = SCtx(chk, 'core.cpp')
    X = XCtx(chk, 'exe.cpp')
    V = EvCtx(chk, 'event.cpp')
    parts = [
        lambda: step_rules(chk, C, pid, ['mem']),
        lambda: early_rules(o, C, pid + '.early'),
        lambda: (producer_rules(o, C, pid + '.unique', SETS), producer_rules(o, C, pid + '.shared', SSETS, True)),
        lambda: (drop_rules(o, C, pid), contract_rules(o, C, pid), ready_task_rules(o, C, pid), job_rules(o, C, pid)),
        lambda: (ready_rules(o, C, pid, K.READY_U + ['ready_task', 'ready_shared']), peek_rules(o, C, pid, ['peek_future']), get_rules(o, C, pid, K.GET_U), get_rules(o, C, pid + '.shared', K.GET_S, shared=True)),
        lambda: (connect_rules(o, C, pid, K.CONNECT), forward_rules(o, C, pid, ['make_contract', 'make_shared_contract'])),
        lambda: (strand_rules(o, X, pid), pool_rules(o, X, pid), list_rules(o, X, pid)),
        lambda: (wait_rules(o, V, pid + '.wait', {n: WAITS[n] for n in ('w_wait1', 'w_wait2', 'w_waits1', 'w_waitus', 'w_for1', 'w_for2')})),
        lambda: ev(o, V, pid + '.event'),
        lambda: mutex_part(o, XCtx(chk, 'mutex.cpp'), pid),
        lambda: smutex_part(o, XCtx(chk, 'mutex.cpp'), pid),
        lambda: (ref_rules(chk, C, pid, set()), ref_rules(chk, X, pid, set()), ref_rules(chk, V, pid, set())),
        lambda: ref_rules(chk, W.WhenCtx(chk, 'when.cpp'), pid, set()),
    ]
    chk.parallel(range(len(parts)), lambda i: parts[i]())
    when_race(chk, pid, tier)
    import rules_coro as Z
    Z.coro_rules(chk, Z.CoCtx(chk), pid + '.coro', tier, {k: Z.CO[k] for k in ('race', 'after')})


def mutex_part(o, M, pid):
    mutex_rules(o, M, pid + '.mutex')
    guard_rules(o, M, pid + '.mutex')


def smutex_part(o, M, pid):
    shared_rules(o, M, pid + '.smutex')
    stack_rules(o, M, pid + '.smutex')


def ev(o, V, pid):
    F = Flag(o, V, pid)
    O = event_rules(o, V, pid)
    blocking_rules(o, V, pid, O, F)
    await_rules(o, V, pid, O)
    group_rules(o, V, pid, O)
