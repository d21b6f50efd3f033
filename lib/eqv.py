"""Equivalence obligations decided on optimized IR: a function discharges its obligation when no path of its (loop-free)
body reaches verif_bad.  Values are kept in a normal form (linear combinations modulo 2^w, distributed truncations,
hash-consed operations); a branch on an undecided comparison splits the path and records the fact."""
import re
from engine import AnalysisError


class Undecided(Exception):
    pass


class Ctx:
    def __init__(s):
        s.sub = {}
        s.eq = set()
        s.ne = set()
        s.rel = {}
        s.mem = {}
        s.esc = set()

    def fork(s):
        t = Ctx()
        t.sub = dict(s.sub)
        t.eq = set(s.eq)
        t.ne = set(s.ne)
        t.rel = dict(s.rel)
        t.mem = dict(s.mem)
        t.esc = set(s.esc)
        return t


def C(v, w):
    return ('c', v & ((1 << w) - 1), w)


def isc(t):
    return t[0] == 'c'


def width(t):
    return t[2]


def lin(t):
    """-> (const, {term: coef})"""
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[3])
    return 0, {t: 1}


def mklin(k, d, w):
    m = (1 << w) - 1
    d = {t: c & m for t, c in d.items() if c & m}
    if not d:
        return C(k, w)
    k &= m
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ('lin', k, w, tuple(sorted(d.items(), key=repr)))


def add(a, b, w, f=1):
    k, d = lin(a)
    k2, d2 = lin(b)
    for t, c in d2.items():
        d[t] = d.get(t, 0) + f * c
    return mklin(k + f * k2, d, w)


def scale(a, n, w):
    k, d = lin(a)
    return mklin(k * n, {t: c * n for t, c in d.items()}, w)


def op(name, w, *args):
    """canonical constructor"""
    m = (1 << w) - 1
    if name in ('add', 'sub'):
        return add(args[0], args[1], w, 1 if name == 'add' else -1)
    if name == 'mul':
        for x, y in (args, args[::-1]):
            if isc(x):
                return scale(y, x[1], w)
        return ('op', name, w) + tuple(sorted(args, key=repr))
    if name == 'shl' and isc(args[1]):
        x = args[0]
        if x[0] == 'op' and x[1] == 'lshr' and isc(x[4]) and x[4] == args[1]:
            return op('and', w, C(m & ~((1 << args[1][1]) - 1), w), x[3])
        return scale(args[0], 1 << args[1][1], w) if args[1][1] < w else C(0, w)
    if name in ('and', 'or', 'xor'):
        if any(isc(x) for x in args):
            c, x = (args[0], args[1]) if isc(args[0]) else (args[1], args[0])
            if isc(x):
                return C({'and': c[1] & x[1], 'or': c[1] | x[1], 'xor': c[1] ^ x[1]}[name], w)
            if c[1] == 0:
                return c if name == 'and' else x
            if c[1] == m and name != 'xor':
                return x if name == 'and' else c
            if c[1] == m and name == 'xor':
                return add(C(m, w), x, w, -1)
        if args[0] == args[1]:
            return C(0, w) if name == 'xor' else args[0]
        l = []
        for x in args:
            l += list(x[3:]) if x[0] == 'op' and x[1] == name else [x]
        l = sorted(l if name == 'xor' else set(l), key=repr)
        if name == 'or' and len(l) == 2 and all(x[0] == 'op' and x[1] == 'and' and len(x) == 5 for x in l):
            # two disjoint slices of one value
            (m1, x1), (m2, x2) = (sorted(x[3:], key=lambda y: not isc(y)) for x in l)
            if isc(m1) and isc(m2) and x1 == x2 and m1[1] & m2[1] == 0:
                return op('and', w, C(m1[1] | m2[1], w), x1)
        if name == 'xor':
            o = []
            for x in l:
                if o and o[-1] == x:
                    o.pop()
                else:
                    o.append(x)
            l = o
            if not l:
                return C(0, w)
        return l[0] if len(l) == 1 else ('op', name, w) + tuple(l)
    if name == 'trunc':
        x = args[0]
        if isc(x):
            return C(x[1], w)
        if width(x) == w:
            return x
        if x[0] == 'lin':
            return mklin(x[1], norm({}, [(op('trunc', w, t), c) for t, c in x[3]], w), w)
        if x[0] == 'op' and x[1] in ('and', 'or', 'xor'):
            r = op('trunc', w, x[3])
            for y in x[4:]:
                r = op(x[1], w, r, op('trunc', w, y))
            return r
        if x[0] == 'op' and x[1] in ('zext', 'sext'):
            y = x[3]
            if width(y) == w:
                return y
            return op('trunc', w, y) if width(y) > w else op(x[1], w, y)
        if x[0] == 'op' and x[1] == 'trunc':
            return op('trunc', w, x[3])
    if name in ('zext', 'sext'):
        x = args[0]
        if isc(x):
            v = x[1]
            if name == 'sext' and v >> (x[2] - 1):
                v -= 1 << x[2]
            return C(v, w)
        if x[0] == 'op' and x[1] == name:
            return op(name, w, x[3])
    if name in ('lshr', 'ashr') and isc(args[1]) and isc(args[0]):
        v = args[0][1]
        if name == 'ashr' and v >> (w - 1):
            v -= 1 << w
        return C(v >> args[1][1], w)
    return ('op', name, w) + tuple(args)


def norm(d, l, w):
    """sum of coef * term where the terms may themselves be sums"""
    for t, c in l:
        if t[0] == 'lin' or t[0] == 'c':
            k, dd = lin(t)
            if k:
                d[('c', 1, w)] = d.get(('c', 1, w), 0) + c * k
            for t2, c2 in dd.items():
                d[t2] = d.get(t2, 0) + c * c2
        else:
            d[t] = d.get(t, 0) + c
    return d


_mklin = mklin


def mklin(k, d, w):
    c = d.pop(('c', 1, w), 0) if d else 0
    return _mklin(k + c, d, w)


def rebuild(t, sub):
    if not sub or t[0] == 'c':
        return t
    if t in sub:
        return rebuild(sub[t], sub)
    if t[0] == 's':
        return t
    if t[0] == 'lin':
        return mklin(t[1], norm({}, [(rebuild(x, sub), c) for x, c in t[3]], t[2]), t[2])
    args = tuple(rebuild(x, sub) if type(x) is tuple else x for x in t[3:])
    if args == t[3:]:
        return t
    return op(t[1], t[2], *args)


def occurs(s, t):
    if t == s:
        return True
    if t[0] in ('c', 's'):
        return False
    if t[0] == 'lin':
        return any(occurs(s, x) for x, c in t[3])
    return any(type(x) is tuple and occurs(s, x) for x in t[3:])


INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'ugt': 'ult', 'ule': 'uge', 'sgt': 'slt', 'sle': 'sge'}


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Eval:
    MAXPATHS = 4096

    def __init__(s, mod, fn):
        s.m, s.fn = mod, fn
        s.paths = 0
        s.bad = []
        s.n = 0
        s.calls = set()

    def fresh(s, what, w):
        s.n += 1
        return ('s', '%s%d' % (what, s.n), w)

    # ---- decisions: returns list of (ctx, bool)
    def decide(s, c, p, a, b):
        w = max(width(a), width(b))
        a, b = rebuild(a, c.sub), rebuild(b, c.sub)
        if isc(a) and isc(b):
            x, y = a[1], b[1]
            if p[0] == 's':
                x, y = sg(x, w), sg(y, w)
            q = p.lstrip('us') if p not in ('eq', 'ne') else p
            return [(c, {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q])]
        if p == 'ne':
            return [(c2, not v) for c2, v in s.decide(c, 'eq', a, b)]
        if p == 'eq':
            d = add(a, b, w, -1)
            if isc(d):
                return [(c, d[1] == 0)]
            e = min(d, scale(d, -1, w), key=repr)
            if e in c.ne:
                return [(c, False)]
            if e in c.eq:
                return [(c, True)]
            t = c.fork()
            c.ne.add(e)
            t.eq.add(e)
            # solve for a symbol with coefficient +-1
            k, dd = lin(d)
            for x, co in sorted(dd.items(), key=repr):
                if x[0] == 's' and co in (1, (1 << w) - 1):
                    rest = dict(dd)
                    del rest[x]
                    v = mklin(k, rest, w)
                    v = scale(v, -1, w) if co == 1 else v
                    if not occurs(x, v):
                        t.sub[x] = v
                        break
            # a comparison that a disequality already refutes under the new fact
            for z in t.ne:
                r = rebuild(z, t.sub)
                if isc(r) and r[1] == 0:
                    return [(c, False)]
            return [(t, True), (c, False)]
        if p in SWAP:
            p, a, b = SWAP[p], b, a
            return s.decide(c, p, a, b)
        if p in ('uge', 'sge'):
            return [(c2, not v) for c2, v in s.decide(c, INV[p], a, b)]
        if a == b:
            return [(c, False)]
        key = (p, a, b)
        if key in c.rel:
            return [(c, c.rel[key])]
        t = c.fork()
        t.rel[key] = True
        c.rel[key] = False
        return [(t, True), (c, False)]

    def truth(s, c, v):
        """i1 value -> [(ctx, bool)]"""
        v = rebuild(v, c.sub)
        if isc(v):
            return [(c, v[1] != 0)]
        return s.decide(c, 'ne', v, C(0, 1))

    def tw(s, t):
        if type(t) is int:
            return t
        if t == 'p':
            return 64
        m = re.match(r'f(\d+)$', str(t))
        if m:
            return int(m.group(1))
        raise Undecided('type %s' % (t,))

    def val(s, env, o, w=64):
        k = o[0]
        if k == 'v':
            return env[o[1]]
        if k == 'c':
            return C(int(o[1]), int(o[2]))
        if k == 'g':
            return add(('s', '@' + o[1], 64), C(o[2], 64), 64)
        if k == 'f':
            return ('s', 'fconst ' + str(o[1]), w)
        if k == 'z' or k == 'n':
            return C(0, w)
        return s.fresh('undef', w)

    def block(s, b, prev, env, c, steps):
        """runs one block; returns the successor states"""
        if steps > 400:
            raise Undecided('loop')
        blk = s.fn.blocks[b]
        states = [(env, c)]
        i = 0
        phis = []
        while blk[i]['op'] == 'phi':
            p = blk[i]
            o = [o for pb, o in p['in'] if pb == prev]
            phis.append((p['i'], s.val(env, o[0], s.tw(p['t']))))
            i += 1
        env = dict(env)
        env.update(phis)
        states = [(env, c)]
        while True:
            ins = blk[i]
            o = ins['op']
            if o in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                break
            nxt = []
            for env, c in states:
                nxt += s.step(ins, env, c)
            states = nxt
            if len(states) > s.MAXPATHS:
                raise Undecided('paths')
            i += 1
        out = []
        for env, c in states:
            if o in ('ret', 'unreachable', 'resume'):
                continue
            if o == 'invoke':
                for env2, c2 in s.call(ins, env, c):
                    out.append((ins['n'], b, env2, c2, steps + 1))
            elif o == 'br':
                bs = ins['b']
                if len(bs) == 1:
                    out.append((bs[0], b, env, c, steps + 1))
                else:
                    for c2, v in s.truth(c, s.val(env, ins['a'][0], 1)):
                        out.append((bs[0] if v else bs[1], b, env, c2, steps + 1))
            else:
                v = s.val(env, ins['a'][0], int(ins['cs'][0][0][2]) if ins['cs'] else 64)
                cur = [c]
                for k, tgt in ins['cs']:
                    rest = []
                    for c1 in cur:
                        for c2, t in s.decide(c1, 'eq', v, C(int(k[1]), int(k[2]))):
                            if t:
                                out.append((tgt, b, env, c2, steps + 1))
                            else:
                                rest.append(c2)
                    cur = rest
                for c1 in cur:
                    out.append((ins['def'], b, env, c1, steps + 1))
        return out

    def set(s, env, ins, v):
        e = dict(env)
        e[ins['i']] = v
        return e

    def call(s, ins, env, c):
        f = ins.get('f') or ['?']
        name = f[1] if f[0] == 'g' else '?'
        if name == 'verif_bad' or 'trap' in name or 'assert_fail' in name:
            s.bad.append((name, ins.get('l', 0), c))
            return []
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')):
            return [(env, c)]
        if ins.get('nr'):
            return []
        m = re.match(r'llvm\.[su](add|sub|mul)\.with\.overflow', name)
        if m:
            w = width(s.val(env, ins['a'][0]))
            a = [rebuild(s.val(env, x, w), c.sub) for x in ins['a']]
            e = dict(env)
            e[ins['i']] = ('agg', [op(m.group(1), w, *a), s.fresh('overflow', 1)])
            return [(e, c)]
        if name.startswith('llvm.') and 'i' in ins:
            w = s.tw(ins['t'])
            a = [rebuild(s.val(env, x, w), c.sub) for x in ins['a']]
            n = re.sub(r'\..*', '', name[5:])
            m = re.match(r'(u|s)(min|max)$', n)
            if m:
                out = []
                for c2, v in s.decide(c, m.group(1) + 'lt', a[0], a[1]):
                    out.append((s.set(env, ins, a[0] if v == (m.group(2) == 'min') else a[1]), c2))
                return out
            return [(s.set(env, ins, op('llvm.' + n, w, *a)), c)]
        s.calls.add(name)
        for x in ins['a']:
            for base, _ in list(c.mem):
                if base[1].startswith('alloca') and occurs(base, s.val(env, x)):
                    c.esc.add(base)
        for k in [k for k in c.mem if not k[0][1].startswith('alloca') or k[0] in c.esc]:
            del c.mem[k]
        if 'i' in ins:
            return [(s.set(env, ins, s.fresh('call', s.tw(ins['t']))), c)]
        return [(env, c)]

    def gather(s, c, base, off, n):
        bs = [c.mem.get((base, off + i)) for i in range(n)]
        if all(bs) and all(x[0] == bs[0][0] and x[1] == bs[0][1] + i for i, x in enumerate(bs)):
            v, j = bs[0]
            v = rebuild(v, c.sub)
            if j:
                v = op('lshr', width(v), v, C(8 * j, width(v)))
            return op('trunc', n * 8, v) if width(v) != n * 8 else v
        if all(bs) and all(isc(rebuild(x[0], c.sub)) for x in bs):
            r = 0
            for i, (v, j) in enumerate(bs):
                r |= (rebuild(v, c.sub)[1] >> (8 * j) & 255) << (8 * i)
            return C(r, n * 8)
        v = s.fresh('load', n * 8)
        for i in range(n):
            c.mem[(base, off + i)] = (v, i)
        return v

    def step(s, ins, env, c):
        o = ins['op']
        if o == 'call':
            return s.call(ins, env, c)
        if o in ('landingpad', 'fence'):
            return [(env, c)]
        if o == 'icmp':
            w = s.tw(ins['vt'])
            a, b = (s.val(env, x, w) for x in ins['a'])
            return [(s.set(env, ins, C(int(v), 1)), c2) for c2, v in s.decide(c, ins['p'], a, b)]
        if o == 'fcmp':
            w = s.tw(ins['vt']) if 'vt' in ins else 64
            a, b = (rebuild(s.val(env, x, w), c.sub) for x in ins['a'])
            key = ('fcmp', ins['p'], a, b)
            if key in c.rel:
                return [(s.set(env, ins, C(int(c.rel[key]), 1)), c)]
            t = c.fork()
            t.rel[key] = True
            c.rel[key] = False
            return [(s.set(env, ins, C(1, 1)), t), (s.set(env, ins, C(0, 1)), c)]
        if o == 'select':
            w = s.tw(ins['t'])
            out = []
            for c2, v in s.truth(c, s.val(env, ins['a'][0], 1)):
                out.append((s.set(env, ins, s.val(env, ins['a'][1 if v else 2], w)), c2))
            return out
        if o == 'extractvalue':
            v = s.val(env, ins['a'][0])
            if v[0] != 'agg':
                return [(s.set(env, ins, s.fresh('field', s.tw(ins['t']))), c)]
            return [(s.set(env, ins, v[1][ins['x'][0]]), c)]
        w = s.tw(ins['t']) if 't' in ins and 'i' in ins else 64
        if o in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            v = s.val(env, ins['a'][0], w)
            if width(v) != w:
                v = op('trunc' if width(v) > w else 'zext', w, v)
            return [(s.set(env, ins, v), c)]
        if o == 'getelementptr':
            v = s.val(env, ins['a'][0], 64)
            v = add(v, C(ins['o'], 64), 64)
            for vo, sc in ins.get('x') or ():
                x = s.val(env, vo, 64)
                if width(x) != 64:
                    x = op('sext', 64, x)
                v = add(v, scale(x, sc, 64), 64)
            return [(s.set(env, ins, v), c)]
        if w == 1 and o in ('and', 'or', 'xor'):
            out = []
            for c2, x in s.truth(c, s.val(env, ins['a'][0], 1)):
                if o == 'and' and not x or o == 'or' and x:
                    out.append((s.set(env, ins, C(int(x), 1)), c2))
                    continue
                for c3, y in s.truth(c2, s.val(env, ins['a'][1], 1)):
                    out.append((s.set(env, ins, C(int(y if o != 'xor' else x != y), 1)), c3))
            return out
        if o in ('zext', 'sext') and s.tw(ins['vt']) == 1:
            return [(s.set(env, ins, C((1 if o == 'zext' else -1) if v else 0, w)), c2) for c2, v in s.truth(c, s.val(env, ins['a'][0], 1))]
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'trunc', 'zext', 'sext',
                 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            a = []
            for x in ins['a']:
                v = rebuild(s.val(env, x, w), c.sub)
                a.append(v)
            return [(s.set(env, ins, op(o, w, *a)), c)]
        if o == 'alloca':
            s.n += 1
            return [(s.set(env, ins, ('s', 'alloca%d' % s.n, 64)), c)]
        if o in ('load', 'store'):
            a = rebuild(s.val(env, ins['a'][-1]), c.sub)
            k, d = lin(a)
            (base, co), = d.items() if len(d) == 1 else ((None, 0),)
            if co != 1 or base[0] != 's':
                raise Undecided('address of a memory access')
            n = ins['s']
            off = sg(k, 64)
            if o == 'load':
                v = s.gather(c, base, off, n)
                if width(v) != w and type(ins['t']) is int:
                    v = op('trunc', w, v)
                return [(s.set(env, ins, v), c)]
            v = s.val(env, ins['a'][0], n * 8)
            if width(v) < n * 8:
                v = op('zext', n * 8, v)
            for i in range(n):
                c.mem[(base, off + i)] = (v, i)
            return [(env, c)]
        raise Undecided('instruction ' + o)


class F:
    pass


def decide(fns, name):
    """-> list of ways an obligation function can fail (empty: discharged), number of paths"""
    d = fns[name]
    f = F()
    f.blocks = d['b']
    f.argw = []
    ev = Eval(None, f)
    f.argw = [ev.tw(a['t']) for a in d['args']]
    env0 = {a['i']: ('s', 'arg%d' % a['i'], ev.tw(a['t'])) for a in d['args']}
    work = [(0, None, env0, Ctx(), 0)]
    while work:
        ev.paths += 1
        if ev.paths > ev.MAXPATHS:
            raise Undecided('more than %d paths' % ev.MAXPATHS)
        b, prev, env, c, steps = work.pop()
        work += ev.block(b, prev, env, c, steps)
    return ev.bad, ev.paths, ev.calls
