"""C20: heap allocations of every API operation, over all its paths and the whole later life of what it creates."""
from rules_task import *
from rules_exe import XCtx
from rules_event import EvCtx, REG
import rules_when as W


def allocs(p):
    return [e for e in p.ev if e.k == 'new']


def where(p, e):
    return e.where() if e is not None else ''


ZERO_CORE = r'(set|sset|drop|sdrop|detach|ready|peek|get|touch|connect|task|sh_copy|sh_drop|sh_get|sh_touch)(_|$)'
ONE_CORE = r'(make|sh_split|sh_share|submit)(_|$)'


def bounded(chk, r, n, p, limit, what):
    a = allocs(p)
    chk.ob(r, len(a) <= limit, '%s at %s' % (n, where(p, a[limit]) if len(a) > limit else ''), '%s allocates %d times' % (what, len(a)), p)


def step_alloc(chk, C):
    r = chk.rule('C20.step', 'a step allocates at most one block over its whole life: building, running, unwrapping, completing, dropping')
    for n, mode, sig in step_entries(C.m):
        for h, p, msg in step_histories(C, n, mode, sig):
            bounded(chk, r, n, p, 1, 'a step')
    for n, kind, pl, sig in head_entries(C.m):
        for h, p, msg in head_histories(C, n, kind, pl, sig):
            bounded(chk, r, n, p, 1, 'a head of a pipeline')
    for n in ('async_on', 'async_inl', 'async_on_ref', 'lazy_on', 'lazy_inl', 'lazy_on_ref'):
        for p in C.paths(n, init=init_handles(), key='h'):
            bounded(chk, r, n, p, 1, 'a contract step')
            ks = news(p, r'detail::')
            if p.end == 'ret' and ks:
                for m in ('Call', 'Drop'):
                    f = vt(p, ks[0]).get(m)
                    for q in C.resume(p, f, [(ks[0], 0)]) if f else []:
                        bounded(chk, r, n, q, 1, 'a contract step')


def op_alloc(chk, C):
    r0 = chk.rule('C20.none', 'fulfilling, observing, connecting, starting, cancelling and dropping allocate nothing')
    r1 = chk.rule('C20.one', 'making a future, a task or a contract, sharing one and submitting a function allocate one block')
    for n in sorted(C.m.fns):
        if not C.m.fns[n].blocks:
            continue
        if re.match(ZERO_CORE, n):
            for p in C.paths(n, init=init_handles(), key='h', **({'loop': 2} if n.startswith('s') else {})):
                bounded(chk, r0, n, p, 0, 'an operation')
        elif re.match(ONE_CORE, n):
            for p in C.paths(n, init=init_handles(), key='h'):
                bounded(chk, r1, n, p, 1, 'an operation')


def wait_alloc(chk):
    C = EvCtx(chk, 'event.cpp')
    r = chk.rule('C20.wait', 'Wait, WaitFor and WaitUntil on plain futures allocate nothing')
    for n in sorted(C.m.fns):
        if not re.match(r'w_(wait|for|until)', n) or 's' in n.split('_', 1)[1].replace('waits', 's').replace('wait', ''):
            continue
        many = bool(re.search(r'(n|it)$', n))
        for p in C.paths(n, init=init_handles(), key='w', maxpaths=60000, **dict({'opaque': REG} if many else {}, **({'loop': 2} if n == 'w_for3' else {}))):
            bounded(chk, r, n, p, 0, 'waiting')
    for n in ('me_set', 'me_wait', 'me_for', 'me_until', 'me_new', 'me_reset', 'cb_one_here', 'cb_one_next', 'cb_many_here', 'cb_many_next'):
        for p in C.paths(n, key='w'):
            bounded(chk, r, n, p, 0, 'waiting')


def strand_alloc(chk):
    X = XCtx(chk, 'exe.cpp')
    r = chk.rule('C20.strand', 'submitting an existing job through a strand, and running or dropping the batch, allocates nothing')
    for n in ('strand_submit', 'strand_call', 'strand_drop'):
        for p in X.paths(n):
            bounded(chk, r, n, p, 0, 'a strand')


PLAIN = r'(all|any|join)_[lfn](_v|_void)?_(it)3?$|(all_[fn]_(v|void)|join_[fn]|any_[lfn]|any_lvoid|tup_[fn])$'


def when_alloc(chk, tier):
    C = W.WhenCtx(chk, 'when.cpp')
    r = chk.rule('C20.when', 'combinators of plain futures allocate a number of blocks that does not depend on the number of inputs')
    base = {}
    names = [n for n in sorted(C.m.fns) if C.m.fns[n].blocks and re.match(r'(all_[fn]_(v|void)|join_[fn]|any_[lfn]|any_lvoid)(_it|_3|_it3)?$', n)]
    for n in sorted(names, key=lambda n: n.endswith('3')):
        key = re.sub(r'3$|_3$', '', n)
        if n.endswith('_3') and tier == 'quick':
            continue
        worst, wp = 0, None
        for m in ('Here',):
            for p in W.histories(C, n, m, False, maxpaths=600000, loop=5):
                if p.end == 'cut':
                    continue
                k = len(allocs(p))
                if k > worst:
                    worst, wp = k, p
        if key not in base:
            base[key] = worst
            chk.ob(r, 0 < worst <= 8, n, 'the combinator allocates %d blocks for two inputs' % worst, wp)
        else:
            chk.ob(r, worst <= base[key], '%s at %s' % (n, where(wp, allocs(wp)[-1]) if wp and worst > base[key] else ''), 'the combinator allocates more blocks for more inputs', wp)


def coro_alloc(chk):
    import rules_coro as K
    C = K.CoCtx(chk)
    r = chk.rule('C20.await', 'a coroutine allocates its frame once and no co_await of futures allocates')
    names = sorted(n for n in C.m.fns if n.startswith('co_') and C.m.fns[n].blocks and not re.search(r'sn$', n))

    def one(t):
        n, m = t
        for p, how in K.co_histories(C, n, m, False, maxpaths=1000000):
            if p.end != 'cut':
                bounded(chk, r, n, p, 1, 'a coroutine with its co_awaits')
    chk.parallel([(n, m) for n in names for m in ('Here', 'Next')], one)


def c20(chk, tier):
    C = SCtx(chk, 'core.cpp')
    step_alloc(chk, C)
    op_alloc(chk, C)
    wait_alloc(chk)
    strand_alloc(chk)
    when_alloc(chk, tier)
    coro_alloc(chk)
