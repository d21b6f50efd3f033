"""Check infrastructure shared by the property rules."""
import json, os, sys, time, re
import build
from engine import Engine, AnalysisError, issym, M64, NOMODEL, CONT, Path, Done, CutState

VERIF = build.VERIF


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = 0
        self.viol = []
        self.rules = {}
        self.entries = {}
        self.npaths = 0
        self.steps = 0
        self.fns = set()
        self.vkeys = set()
        self.npos = 0
        self.notes = []

    def rule(self, rid, text):
        self.rules.setdefault(rid, {'text': text, 'instances': 0, 'violations': 0})
        return rid

    def ob(self, rid, ok, where, msg='', path=None):
        """one obligation of rule rid at construct `where`"""
        self.obl += 1
        r = self.rules.setdefault(rid, {'text': '', 'instances': 0, 'violations': 0})
        r['instances'] += 1
        if not ok:
            r['violations'] += 1
            key = (rid, where, msg)
            if key not in self.vkeys:
                self.vkeys.add(key)
                self.viol.append({'rule': rid, 'where': where, 'msg': msg, 'trace': trace(path) if path is not None else []})
        return ok

    def parallel(self, tasks, fn, jobs=None):
        """fn(task) for every task in forked workers; the obligations they report are merged in task order"""
        import multiprocessing as mp
        tasks = list(tasks)
        jobs = min(jobs or (os.cpu_count() or 2), 8, len(tasks))
        if jobs < 2:
            for t in tasks:
                fn(t)
            return
        global WORK
        WORK = (self, fn, tasks)
        with mp.get_context('fork').Pool(jobs) as pool:
            out = pool.map(work, range(len(tasks)), 1)
        err = None
        for r in out:
            if isinstance(r, str):
                err = err or r
                continue
            self.obl += r['obl']
            self.npaths += r['npaths']
            self.steps += r['steps']
            self.fns |= r['fns']
            for k, v in r['entries'].items():
                self.entries[k] = self.entries.get(k, 0) + v
            for k, v in r['rules'].items():
                t = self.rules.setdefault(k, {'text': v['text'], 'instances': 0, 'violations': 0})
                t['instances'] += v['instances']
                t['violations'] += v['violations']
            for v in r['viol']:
                key = (v['rule'], v['where'], v['msg'])
                if key not in self.vkeys:
                    self.vkeys.add(key)
                    self.viol.append(v)
        if err:
            raise AnalysisError(err)

    def finish(self, explanation, assumptions=()):
        known = known_findings(self.pid)
        for rid, r in self.rules.items():
            if r['instances'] == 0 and not self.viol:
                print('ERROR property=%s rule %s matched no construct (%s)' % (self.pid, rid, r['text']))
                self.write(explanation, assumptions)
                return 2
        new = []
        for v in self.viol:
            k = '%s|%s|%s' % (v['rule'], v['where'], v['msg'])
            hit = [f for f in known if f in k]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
            else:
                new.append(v)
        self.write(explanation, assumptions, new)
        for rid, r in sorted(self.rules.items()):
            print('  rule %-28s instances=%-6d violations=%d  %s' % (rid, r['instances'], r['violations'], r['text'][:90]))
        print('property %s: %d obligations over %d entry points, %d paths, %d functions analysed, %.1fs' % (self.pid, self.obl, len(self.entries), self.npaths, len(self.fns), time.time() - self.t0))
        if new:
            rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % self.pid)
            with open(rp, 'w') as f:
                for v in new:
                    f.write('rule %s (%s)\n  at %s\n  %s\n' % (v['rule'], self.rules[v['rule']]['text'], v['where'], v['msg']))
                    for l in v['trace']:
                        f.write('    ' + l + '\n')
                    f.write('\n')
            for v in new[:20]:
                print('  violated %s at %s: %s' % (v['rule'], v['where'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0

    def write(self, explanation, assumptions, viol=()):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        d = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
             'coverage': {'explanation': explanation, 'obligations': self.obl, 'entry_points': len(self.entries), 'paths': self.npaths, 'instructions_interpreted': self.steps,
                          'functions_analysed': len(self.fns), 'rules': {k: {'rule': r['text'], 'instances': r['instances'], 'violations': r['violations']} for k, r in self.rules.items()},
                          'entries': self.entries},
             'wall_s': round(time.time() - self.t0, 2)}
        if assumptions:
            d['assumptions'] = list(assumptions)
        if viol:
            d['violations'] = len(viol)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(d, f, indent=1, default=str)


WORK = None


def work(i):
    chk, fn, tasks = WORK
    chk.obl = chk.npaths = chk.steps = 0
    chk.fns, chk.entries, chk.viol, chk.vkeys = set(), {}, [], set()
    for r in chk.rules.values():
        r['instances'] = r['violations'] = 0
    sys.setrecursionlimit(20000)
    try:
        fn(tasks[i])
    except Exception as e:
        if not chk.viol:
            return str(e) or 'analysis error'
    return {k: getattr(chk, k) for k in ('obl', 'npaths', 'steps', 'fns', 'entries', 'rules', 'viol')}


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def trace(p):
    out = []
    for e in p.ev:
        if e.k == 'ld':
            continue
        d = []
        for k, v in e.d.items():
            if k in ('size', 'bits', 'src', 'name', 'slot', 'vol', 'local', 'ss', 'sret') or v is None:
                continue
            if k == 'addr':
                l = p.loc(v)
                v = '%s(%s)' % (p.fmt(v), l[0] if l else '?')
            elif k in ('args', 'vals'):
                v = '[' + ', '.join(p.fmt(a) for a in v) + ']'
            elif type(v) is tuple or (k in ('val', 'old', 'exp', 'des') and type(v) is int):
                v = p.fmt(v)
            d.append('%s=%s' % (k, v))
        out.append('%s %s @ %s' % (e.k, ' '.join(d), e.where()))
    out.append('path end: %s' % p.end)
    return out


# ---------------------------------------------------------------- models of library-internal dispatch

def m_here(self, st, f, ins, args, ex):
    """InlineCore::Here on an unknown callback: returns null, or once a further core to run"""
    n = st.user.get('here', 0)
    v = self.sym('call', ('Here', st.nev)) if n < st.user.get('maxhere', 1) else 0
    st.user['here'] = n + 1
    ex = dict(ex)
    ex.update({'args': [self.resolve(st, a) for a in args], 'ret': v, '_l': ins.get('l', 0)})
    for a in args:
        self.chkfree(st, self.resolve(st, a), ins)
        self.escape(st, a)
    if n >= 1:
        ex['tail'] = True
    self.event(st, 'vcall', ex)
    return self.finish_call(st, ins, v)


def m_ok(self, st, f, ins, fn, args):
    """a synchronisation call that cannot fail here (error returns mean misuse, excluded by the threading contract)"""
    self.event(st, 'call', {'sn': fn.sn, 'name': fn.name, 'args': [self.resolve(st, a) for a in args], 'ret': 0 if 'i' in ins else None, '_l': ins.get('l', 0)})
    return self.finish_call(st, ins, 0)


def m_cvwait(self, st, f, ins, fn, args):
    """blocks with the mutex released: whatever the mutex guards in the object holding the condition variable may change"""
    self.event(st, 'call', {'sn': fn.sn, 'name': fn.name, 'args': [self.resolve(st, a) for a in args], 'ret': None, '_l': ins.get('l', 0), 'wait': True})
    a = self.resolve(st, args[0])
    if issym(a) and a[0] in st.mem and st.user.get('cvhavoc', True):
        m = self.wmem(st, a[0])
        for o in [o for o, (s, v) in m.items() if type(self.resolve(st, v)) is int and s <= 8]:
            del m[o]
    return self.finish_call(st, ins)


SYNC_MODELS = {'pthread_mutex_lock': m_ok, 'pthread_mutex_unlock': m_ok, 'std::condition_variable::wait': lambda *a: NOMODEL if a[4].blocks else m_cvwait(*a)}


class Ctx:
    """a module plus a memo of analysed entry points"""

    def __init__(self, chk, probe, fault=0, **kw):
        self.chk = chk
        self.probe = probe
        self.m = build.module(probe, fault, **kw)
        self.memo = {}

    def engine(self, **opts):
        e = Engine(self.m, **opts)
        e.vmodels = {'Here': m_here}
        e.models = dict(SYNC_MODELS, **e.models)
        return e

    def paths(self, entry, init=None, key=None, args=None, cls=None, **opts):
        k = (entry if isinstance(entry, str) else entry.name, key, tuple(sorted((a, str(b)) for a, b in opts.items())))
        if k in self.memo and (init is None or key is not None):
            return self.memo[k]
        e = self.engine(**opts)
        fn = self.m.fns.get(self.m.aliases.get(entry, entry)) if isinstance(entry, str) else entry
        if fn is None:
            raise AnalysisError('entry point not found: %s' % entry)
        ps = e.run(fn, args=args, init=init)
        for p in ps:
            p.entry = entry if isinstance(entry, str) else fn.sn
            p.args = e.args
        self.account(e, k[0], ps)
        self.memo[k] = ps
        return ps

    def resume(self, p, fn, vals, init=None):
        e = p.eng
        s0 = e.steps
        e.MAXSTEPS = max(e.MAXSTEPS, s0 + type(e).MAXSTEPS)
        ps = e.resume(p, fn, vals, init)
        name = (fn if isinstance(fn, str) else fn.name)
        for q in ps:
            q.entry = '%s > %s' % (p.entry, self.m.fns[self.m.aliases.get(name, name)].sn.split('::')[-1])
            q.args = vals
            q.prev = p
            q.nprev = len(p.ev)
        self.account(e, ps[0].entry if ps else name, ps, e.steps - s0)
        return ps

    def account(self, e, name, ps, steps=None):
        c = self.chk
        c.npaths += len(ps)
        c.steps += e.steps if steps is None else steps
        c.fns |= e.visited_fns
        c.entries[str(name)] = c.entries.get(str(name), 0) + len(ps)


def run_check(pid, tier, body, explanation, assumptions=()):
    chk = Check(pid, tier)
    sys.setrecursionlimit(20000)
    try:
        body(chk, tier)
    except Exception as e:
        if not isinstance(e, AnalysisError):
            import traceback
            traceback.print_exc()
        print('ERROR property=%s analysis could not be completed: %s' % (pid, e))
        if chk.viol:
            return chk.finish(explanation + ' [INCOMPLETE: %s]' % str(e)[:200], assumptions) or 3
        try:
            chk.write(explanation + ' [INCOMPLETE: %s]' % str(e)[:200], assumptions)
        except OSError:
            pass
        return 3
    return chk.finish(explanation, assumptions)


# ---------------------------------------------------------------- path queries

STRENGTH = {'': 0, 'un': 0, 'rlx': 0, 'acq': 1, 'rel': 2, 'ar': 3, 'sc': 3}


def has_acq(o):
    return STRENGTH.get(o, 0) & 1 == 1


def has_rel(o):
    return STRENGTH.get(o, 0) & 2 == 2


def fname(p, addr):
    l = p.loc(addr)
    return l[0] if l else None


def at(p, e, name):
    return e.d.get('addr') is not None and fname(p, e.d['addr']) == name


def base(p, v):
    v = p.res(v)
    return v[0] if issym(v) else None


def atomics(p, name=None, kinds=('aload', 'astore', 'cas', 'rmw', 'ald', 'ast')):
    return [e for e in p.ev if e.k in kinds and (name is None or at(p, e, name))]


def calls(p, sn):
    return [e for e in p.ev if e.k == 'call' and e.sn == sn]


def vcalls(p, m, obj=None):
    return [e for e in p.ev if e.k == 'vcall' and e.m == m and (obj is None or p.res(e.obj) == p.res(obj))]


def where(p, e=None):
    if e is None:
        return p.entry
    return '%s [%s]' % (e.where(), p.entry)
