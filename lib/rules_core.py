"""C01, C02, C03, C05, C06, C12 on the core probe."""
from rules_task import *
from rules_event import EvCtx, Flag, WAITS, wait_rules, event_rules, group_rules
from rules_exe import XCtx, strand_rules, pool_rules, list_rules, simple_rules

READY_U = ['ready_future', 'ready_future_on']
GET_U = {'get_future': 'move', 'get_future_on': 'move', 'touch_future': 'move'}
GET_S = {'sh_get_move': 'move', 'sh_touch_move': 'move', 'sh_get_const': 'const'}
CONNECT = ['connect_uu', 'connect_su', 'connect_us', 'connect_ss', 'connect_pu', 'connect_ps']


def c01(chk, tier):
    C = SCtx(chk, 'core.cpp')
    step_rules(chk, C, 'C01', ['lost', 'dup', 'route', 'mem'], modes='u.*|run')
    early_rules(chk, C, 'C01', modes='u.*')
    producer_rules(chk, C, 'C01', SETS)
    drop_rules(chk, C, 'C01')
    ready_rules(chk, C, 'C01', READY_U)
    peek_rules(chk, C, 'C01', ['peek_future'])
    get_rules(chk, C, 'C01', GET_U)
    connect_rules(chk, C, 'C01', ['connect_uu'])
    forward_rules(chk, C, 'C01', ['make_contract'])
    contract_rules(chk, C, 'C01')
    wait_rules(chk, EvCtx(chk, 'event.cpp'), 'C01.wait', {n: WAITS[n] for n in ('w_wait1', 'w_wait2', 'w_for1')})


def c02(chk, tier):
    C = SCtx(chk, 'core.cpp')
    step_rules(chk, C, 'C02', ['route', 'exc', 'unwrap', 'lost', 'dup'])
    contract_rules(chk, C, 'C02')
    ready_task_rules(chk, C, 'C02')


def c03(chk, tier):
    C = SCtx(chk, 'core.cpp')
    step_rules(chk, C, 'C03', ['mem', 'leak', 'lost', 'dup'])
    producer_rules(chk, C, 'C03', SETS)
    producer_rules(chk, C, 'C03.shared', SSETS, True)
    drop_rules(chk, C, 'C03')
    get_rules(chk, C, 'C03', GET_U)
    get_rules(chk, C, 'C03.shared', GET_S, shared=True)
    connect_rules(chk, C, 'C03', CONNECT)
    forward_rules(chk, C, 'C03', ['make_contract', 'make_shared_contract'])
    contract_rules(chk, C, 'C03')
    ready_task_rules(chk, C, 'C03')
    task_rules(chk, C, 'C03')
    job_rules(chk, C, 'C03')
    shared_handle_rules(chk, C, 'C03')
    X = XCtx(chk, 'exe.cpp')
    strand_rules(chk, X, 'C03', ('order', 'ref', 'fate'))
    pool_rules(chk, X, 'C03', ('fate',))
    list_rules(chk, X, 'C03')
    V = EvCtx(chk, 'event.cpp')
    wait_rules(chk, V, 'C03.wait', {n: WAITS[n] for n in ('w_wait2', 'w_for1', 'w_waitus')})
    group_rules(chk, V, 'C03', event_rules(chk, V, 'C03'))


def c05(chk, tier):
    C = SCtx(chk, 'core.cpp')
    step_rules(chk, C, 'C05', ['place', 'lost', 'dup', 'route'])
    contract_rules(chk, C, 'C05')
    ready_task_rules(chk, C, 'C05')
    task_rules(chk, C, 'C05')
    job_rules(chk, C, 'C05')
    X = XCtx(chk, 'exe.cpp')
    strand_rules(chk, X, 'C05', ('order', 'fate'))
    pool_rules(chk, X, 'C05', ('fate', 'stop'))
    list_rules(chk, X, 'C05')
    simple_rules(chk, X, 'C05')


def c06(chk, tier):
    C = SCtx(chk, 'core.cpp')
    step_rules(chk, C, 'C06', ['lost', 'dup', 'route', 'mem', 'leak'], modes='s(on|inl|oninh|subinl|subon)$', heads=False)
    early_rules(chk, C, 'C06', modes='s(on|inl|oninh|subinl|subon)$')
    producer_rules(chk, C, 'C06', SSETS, True)
    ready_rules(chk, C, 'C06', ['ready_shared'])
    get_rules(chk, C, 'C06', GET_S, shared=True)
    connect_rules(chk, C, 'C06', CONNECT[1:])
    forward_rules(chk, C, 'C06', ['make_contract', 'make_shared_contract'])
    shared_handle_rules(chk, C, 'C06')
    wait_rules(chk, EvCtx(chk, 'event.cpp'), 'C06.wait', {n: WAITS[n] for n in ('w_waits1', 'w_waitss', 'w_waitus')})


def c12(chk, tier):
    C = SCtx(chk, 'core.cpp')
    step_rules(chk, C, 'C12', ['lost', 'dup', 'route', 'exc', 'unwrap', 'place', 'mem', 'leak'], modes='lazy.*|sched')
    lazy_build_rules(chk, C, 'C12')
    contract_rules(chk, C, 'C12', ('lazy_on', 'lazy_inl', 'lazy_on_ref'))
    ready_task_rules(chk, C, 'C12')
    task_rules(chk, C, 'C12')
    ready_rules(chk, C, 'C12', ['ready_task'])
    get_rules(chk, C, 'C12', {'task_touch': 'move'})


def lazy_build_rules(chk, C, pid):
    r = chk.rule(pid + '.lazy.build', 'building a lazy step links it to its source and starts nothing')
    n = 0
    for e, mode, sig in step_entries(C.m):
        if not mode.startswith('lazy'):
            continue
        for p in C.paths(e, init=init_handles(), key='h'):
            if p.end != 'ret':
                continue
            src = p.st.user['handles'][0][0]
            ks = news(p, r'detail::Core<')
            if len(ks) != 1:
                continue
            K = ks[0]
            n += 1
            s = started(p)
            chk.ob(r, s is None and not published(p, K), '%s at %s' % (e, s.where() if s else ''), 'building a lazy pipeline runs or submits something', p)
            w = cas_or_xchg(p, src)
            chk.ob(r, len(w) == 1 and w[0][1] == (K, 0), e, 'the step is registered %d times with its source' % len(w), p)
            off = node_off(C.m)
            nx = rd(p, p.st.mem, K, off)
            chk.ob(r, nx is not None and issym(nx) and nx[0] == src, e, 'the step does not remember its source', p)
    for e, kind, pl, sig in head_entries(C.m):
        if kind != 'sched':
            continue
        for p in C.paths(e, init=init_handles(), key='h'):
            if p.end != 'ret':
                continue
            n += 1
            s = started(p)
            chk.ob(r, s is None, '%s at %s' % (e, s.where() if s else ''), 'Schedule runs or submits something before the task is started', p)
    chk.ob(r, n > 0, 'lazy steps', 'none found')
