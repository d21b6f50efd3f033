"""Path-sensitive dataflow over the compiler IR of the current tree.

Abstract state = (value numbers, abstract store, branch facts, event trace).  Values are constants or
`base + offset` where a base is an opaque value number; undecided branches go both ways, loops are unrolled
until a back edge has been taken LOOP times under branches that the abstraction could not decide.  No code is
executed and no path is given to a solver: branch decisions use only equality/range facts collected on the path.
"""
import json, subprocess, re, sys

M64 = (1 << 64) - 1


class AnalysisError(Exception):
    pass


def demangle_all(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    out = p.stdout.split('\n')
    return dict(zip(names, out))


def strip_params(d):
    """qualified name without template arguments, parameters and return type"""
    out = []
    depth = 0
    i = 0
    d = d.replace('(anonymous namespace)', '(anon)').replace('operator()', 'operator@').replace('operator<<', 'operator@l').replace(
        'operator<=>', 'operator@s').replace('operator<=', 'operator@le').replace('operator<', 'operator@lt').replace('operator>=', 'operator@ge').replace('operator->', 'operator@p').replace('operator>', 'operator@gt').replace('(anon)', '@anon')
    par = 0
    for ch in d:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            if ch == '(':
                # lambda / params: drop
                par += 1
            elif ch == ')':
                par -= 1
            elif par == 0:
                out.append(ch)
            continue
    s = ''.join(out)
    # drop return type: last token containing ::
    s = s.replace(' const', '').replace('[abi:cxx11]', '').replace(' &&', '').replace(' &', '').replace(' [clone .cold]', '')
    s = s.strip()
    if ' ' in s:
        # keep 'operator new' and friends
        m = re.search(r'([\w:@~]*operator .*)$', s)
        s = m.group(1) if m else s.split(' ')[-1]
    return s.replace('operator@', 'operator()') if s.endswith('operator@') else s.replace('operator@', 'operator')


class Fn:
    __slots__ = ('name', 'args', 'nt', 'nr', 'rt', 'qn', 'line', 'file', 'cls', 'static', 'pt', 'blocks', 'dn', 'sn')

    def __init__(s, name, d):
        s.name = name
        s.args = d['args']
        s.nt = d['nt']
        s.nr = d['nr']
        s.rt = d['rt']
        s.qn = d.get('n')
        s.line = d.get('line', 0)
        s.file = d.get('file', '')
        s.cls = d.get('cls')
        s.static = d.get('static', False)
        s.pt = d.get('pt', [])
        s.blocks = d.get('b')
        s.dn = name
        s.sn = name


class Module:
    def __init__(self, path):
        with open(path, errors='replace') as f:
            d = json.load(f)
        self.fns = {k: Fn(k, v) for k, v in d['functions'].items()}
        self.globals = d['globals']
        self.classes = d['classes']
        canon_roles(self.classes)
        self.aliases = d['aliases']
        names = list(self.fns)
        dm = demangle_all(names)
        for n, f in self.fns.items():
            f.dn = dm.get(n, n)
            f.sn = strip_params(f.dn)
        self.by_sn = {}
        for f in self.fns.values():
            self.by_sn.setdefault(f.sn, []).append(f)
        self._field = {}

    def find(self, sn, defined=True):
        """functions with the given unqualified-template name (suffix match on ::)"""
        r = [f for s, l in self.by_sn.items() if s == sn or s.endswith('::' + sn) for f in l if (f.blocks or not defined)]
        return r

    def one(self, sn, pred=None):
        r = self.find(sn)
        if pred:
            r = [f for f in r if pred(f)]
        if not r:
            raise AnalysisError('anchor not found: ' + sn)
        return r[0]

    # ---- class layout
    def cname(self, cid):
        c = self.classes.get(cid)
        return c['n'] if c else cid

    def field(self, cid, off):
        """path [(class name, member name, offset in member)] to the innermost member at off"""
        key = (cid, off)
        r = self._field.get(key)
        if r is None:
            r = self._field[key] = self._find_field(cid, off, 0)
        return r

    def _find_field(self, cid, off, depth):
        c = self.classes.get(cid)
        if c is None or depth > 24:
            return []
        best = None
        for moff, mname, mtid, msz in c['m']:
            if moff <= off < moff + max(msz, 1):
                sub = self._find_field(mtid, off - moff, depth + 1) if mtid in self.classes else []
                cand = [(c['n'], mname, off - moff)] + sub
                if mname.startswith('_vptr'):
                    cand = [(c['n'], '_vptr', 0)]
                if best is None:
                    best = cand
        if best:
            return best
        for boff, bid in c['b']:
            bc = self.classes.get(bid)
            if bc and boff <= off < boff + max(bc['s'], 1):
                r = self._find_field(bid, off - boff, depth + 1)
                if r:
                    return r
        return []

    def vslot(self, cid, idx):
        """virtual method name of slot idx"""
        seen = set()
        todo = [cid]
        while todo:
            c = todo.pop(0)
            if c in seen or c not in self.classes:
                continue
            seen.add(c)
            k = self.classes[c]
            for vi, n in k['v']:
                if vi == idx and not n.startswith('~'):
                    return n
            for off, b in k['b']:
                if off == 0:
                    todo.append(b)
        for c in seen:
            for vi, n in self.classes[c]['v']:
                if n.startswith('~'):
                    if vi == idx:
                        return '~'
                    if vi + 1 == idx:
                        return '~del'
        return None

    def vtslots(self, gname, off=16):
        """{method name: function name} of the vtable `gname` at address point off"""
        g = self.globals.get(gname)
        if g is None or 'i' not in g:
            return {}
        cid = '_ZTS' + gname[4:]
        if cid not in self.classes:
            n = demangle_all([cid]).get(cid, cid)
            n = n.replace('typeinfo name for ', '').replace('(anonymous namespace)', '(anon)')
            if n in self.classes:
                cid = n
        ents = {}

        def walk(i, base):
            if i[0] == 'a':
                for o, c, s in i[1]:
                    walk(c, base + o)
            elif i[0] == 'g':
                ents[base] = i[1]
        walk(g['i'], 0)
        out = {}
        for o, fnname in ents.items():
            if o >= off:
                n = self.vslot(cid, (o - off) // 8)
                if n:
                    out[n] = self.aliases.get(fnname, fnname)
        return out

    def bases_of(self, cid):
        out = []
        todo = [cid]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            if c in self.classes:
                todo += [b for _, b in self.classes[c]['b']]
        return out


ROLES = [
    (r'yaclib::detail::BaseCore$', r'^_ZTSSt6atomicI|^_ZTSSt13__atomic_base|6AtomicI', '_callback'),
    (r'yaclib::detail::BaseCore$', r'12IntrusivePtrINS_9IExecutorE', '_executor'),
    (r'yaclib::detail::ResultCore<', r'^_ZTSN6yaclib6ResultI', '_result'),
]


def canon_roles(classes):
    """give members that play a fixed role their canonical name, whatever they are called"""
    for c in classes.values():
        for cre, tre, name in ROLES:
            if re.search(cre, c['n']) or (c['n'] == '' and name == '_result'):
                for mm in c['m']:
                    if isinstance(mm[2], str) and re.search(tre, mm[2]):
                        mm[1] = name


class Base:
    __slots__ = ('id', 'kind', 'info', 'bits', 'seq')

    def __init__(s, id, kind, info, bits, seq):
        s.id, s.kind, s.info, s.bits, s.seq = id, kind, info, bits, seq

    def __repr__(s):
        return '%s#%d(%s)' % (s.kind, s.id, s.info if not isinstance(s.info, tuple) else s.info[0])


class Ev:
    __slots__ = ('k', 'd', 'fn', 'line', 'i', 'stack')

    def __init__(s, k, d, fn, line, stack):
        s.k, s.d, s.fn, s.line, s.stack = k, d, fn, line, stack
        s.i = 0

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return s.d.get(n)

    def where(s):
        return '%s:%s' % (s.fn, s.line)


class Frame:
    __slots__ = ('fn', 'b', 'i', 'r', 'pb', 'vis', 'ret', 'inv', 'shared', 'depthline', 'mark')

    def copy(s):
        f = Frame()
        f.fn, f.b, f.i, f.pb, f.ret, f.inv = s.fn, s.b, s.i, s.pb, s.ret, s.inv
        f.r = dict(s.r)
        f.vis = dict(s.vis)
        f.shared = False
        f.depthline = s.depthline
        f.mark = s.mark
        return f


class State:
    __slots__ = ('frames', 'mem', 'own', 'eq', 'ne', 'rng', 'dec', 'ev', 'nev', 'esc', 'freed', 'exc', 'caught', 'forks', 'hint', 'rc', 'user', 'ver', 'newlist')

    def __init__(s):
        s.frames = []
        s.mem = {}
        s.own = set()
        s.eq = {}
        s.ne = {}
        s.rng = {}
        s.dec = {}
        s.ev = None
        s.nev = 0
        s.esc = set()
        s.freed = {}
        s.exc = None
        s.caught = ()
        s.forks = 0
        s.hint = {}
        s.rc = {}
        s.user = {}
        s.ver = 0
        s.newlist = ()

    def fork(s):
        t = State()
        for f in s.frames:
            f.shared = True
        t.frames = list(s.frames)
        t.mem = dict(s.mem)
        t.own = set()
        s.own = set()
        t.eq = dict(s.eq)
        t.ne = dict(s.ne)
        t.rng = dict(s.rng)
        t.dec = dict(s.dec)
        t.ev, t.nev = s.ev, s.nev
        t.esc = set(s.esc)
        t.freed = dict(s.freed)
        t.exc, t.caught = s.exc, s.caught
        t.forks = s.forks
        t.hint = dict(s.hint)
        t.rc = {}
        t.user = dict(s.user)
        t.ver = s.ver
        t.newlist = s.newlist
        return t


def issym(v):
    return type(v) is tuple and type(v[0]) is int


class Path:
    def __init__(self, eng, st, end, ret):
        self.eng, self.st, self.end, self.ret = eng, st, end, ret
        l = []
        e = st.ev
        while e is not None:
            l.append(e[1])
            e = e[0]
        l.reverse()
        self.ev = l

    def res(self, v):
        return self.eng.resolve(self.st, v)

    def decide_eq(self, a, b, bits=64):
        return self.eng.cmp(self.st, 'eq', a, b, bits)

    def is_true(self, v):
        return self.eng.cmp(self.st, 'ne', v, 0, 1)

    def loc(self, v):
        return self.eng.locname(self.st, v)

    def fmt(self, v):
        return self.eng.fmt(self.st, v)


class Engine:
    LOOP = 3
    MAXPATHS = 6000
    snap_on = frozenset()
    on_fresh = None
    on_branch = None   # called with every branch condition that is not a constant
    preop = None    # called before an atomic operation: may let another thread's callback run first
    after_call = None
    MAXSTEPS = 4000000

    def __init__(self, mod, opaque=None, models=None, loop=None, maxpaths=None, inline=None, throwing=True, havoc_on=None, record_mem=True, concrete_atomics=False):
        self.m = mod
        self.bases = [None]
        self.consed = {}
        self.opaque = opaque or (lambda f: False)
        self.even = set()
        self.models = models or {}
        if loop:
            self.LOOP = loop
        if maxpaths:
            self.MAXPATHS = maxpaths
        self.havoc_on = havoc_on or (lambda f: False)
        self.throwing = throwing
        self.record_mem = record_mem
        self.concrete_atomics = concrete_atomics
        self.visited_fns = set()
        self.steps = 0
        self.prune = None
        self.seq = 0
        self.tids = {}

    # ------------------------------------------------------------ values
    def newbase(self, kind, info=None, bits=64):
        self.seq += 1
        b = Base(len(self.bases), kind, info, bits, self.seq)
        self.bases.append(b)
        return b.id

    def sym(self, kind, info=None, bits=64):
        return (self.newbase(kind, info, bits), 0)

    def cons(self, kind, info, bits=64):
        k = (kind, info, bits)
        r = self.consed.get(k)
        if r is None:
            r = self.consed[k] = self.newbase(kind, info, bits)
        return r

    def gref(self, name, off=0):
        name = self.m.aliases.get(name, name)
        return (self.cons('global', name), off)

    def resolve(self, st, v):
        if type(v) is int:
            return v
        if type(v) is not tuple or type(v[0]) is not int:
            return v
        b, off = v
        r = st.rc.get(b)
        if r is None:
            r = self._resbase(st, b)
            st.rc[b] = r
        if type(r) is int:
            bits = self.bases[b].bits
            return (r + off) & ((1 << bits) - 1)
        if off == 0:
            return r
        return (r[0], r[1] + off)

    def _resbase(self, st, b):
        e = st.eq.get(b)
        if e is not None:
            return self.resolve(st, e)
        bo = self.bases[b]
        if bo.kind == 'op':
            op, args = bo.info[0], bo.info[1:]
            na = tuple(self.resolve(st, a) if type(a) is tuple else a for a in args)
            if na != args:
                v = self.mkop(st, op, na, bo.bits)
                if v != (b, 0):
                    return self.resolve(st, v)
        return (b, 0)

    def mkop(self, st, op, args, bits):
        m = (1 << bits) - 1
        a = args[0]
        b = args[1] if len(args) > 1 else None
        if op == 'icmp':
            p, x, y, w = args
            d = self.cmp(st, p, x, y, w)
            if d is not None:
                return 1 if d else 0
            return (self.cons('op', ('icmp', p, x, y, w), 1), 0)
        if all(type(x) is int for x in args):
            r = constfold(op, args, bits)
            if r is not None:
                return r & m
        if op == 'add':
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                b = sgn(b, bits) if b >= 0 else b
                return (a[0], wrapoff(a[1] + b, bits))
            x, y = (a[0], b[0]) if a[0] <= b[0] else (b[0], a[0])
            return (self.cons('op', ('add', (x, 0), (y, 0)), bits), a[1] + b[1])
        if op == 'sub':
            if type(b) is int:
                return (a[0], wrapoff(a[1] - sgn(b, bits), bits))
            if type(a) is not int and a[0] == b[0]:
                return (a[1] - b[1]) & m
            # (x+y) - x
            if type(a) is not int:
                ba = self.bases[a[0]]
                if ba.kind == 'op' and ba.info[0] == 'add':
                    if ba.info[1][0] == b[0]:
                        return (ba.info[2][0], a[1] - b[1])
                    if ba.info[2][0] == b[0]:
                        return (ba.info[1][0], a[1] - b[1])
                return (self.cons('op', ('sub', (a[0], 0), (b[0], 0)), bits), a[1] - b[1])
            return (self.cons('op', ('sub', a, b), bits), 0)
        if op in ('and', 'or', 'xor', 'mul') and type(a) is int:
            a, b = b, a
        if op == 'xor':
            if a == b:
                return 0
            if bits == 1 and b == 1:
                return self.mknot(st, a)
            if b == 0:
                return a
        if op == 'and':
            if b == 0:
                return 0
            if b == m or a == b:
                return a
            if type(b) is int and type(a) is not int:
                if a[1] and a[1] % (1 << b.bit_length()) == 0:
                    a = (a[0], 0)
                    args = (a, b)
                ba = self.bases[a[0]]
                if a[1] == 0 and ba.kind == 'op' and ba.info[0] in ('or', 'and') and type(ba.info[2]) is int:
                    c = ba.info[2]
                    if ba.info[0] == 'and':
                        return self.mkop(st, 'and', [ba.info[1], b & c], bits)
                    if b & c == b:
                        return b
                    if b & c == 0:
                        return self.mkop(st, 'and', [ba.info[1], b], bits)
                if bits == 64 and (b == 1 or b == m ^ 1) and a[1] % 2 == 0 and (a[0] in self.even or ba.kind in ('alloca', 'new')):
                    return 0 if b == 1 else a
        if type(b) is int and b > 0 and b & (b - 1) == 0 and op in ('udiv', 'urem'):
            return self.mkop(st, 'lshr', [a, b.bit_length() - 1], bits) if op == 'udiv' else self.mkop(st, 'and', [a, b - 1], bits)
        if op == 'trunc' and type(a) is not int and a[1] == 0 and bits > 1:
            ba = self.bases[a[0]]
            if ba.kind == 'op' and ba.info[0] == 'and' and type(ba.info[2]) is int and ba.info[2] & m == m:
                return self.mkop(st, 'trunc', [ba.info[1]] + list(args[1:]), bits)
        if op == 'lshr' and type(b) is int and type(a) is not int and a[1] == 0:
            ba = self.bases[a[0]]
            if ba.kind == 'op' and ba.info[0] == 'or' and type(ba.info[2]) is int and ba.info[2] < 1 << b:
                return self.mkop(st, 'lshr', [ba.info[1], b], bits)
        if op == 'or':
            if b == 0 or a == b:
                return a
            if b == m:
                return m
        if op == 'mul':
            if b == 0:
                return 0
            if b == 1:
                return a
        if op in ('shl', 'lshr', 'ashr', 'udiv', 'sdiv') and b == (0 if op in ('shl', 'lshr', 'ashr') else 1):
            return a
        if op in ('zext', 'sext'):
            # identity for values whose sign is irrelevant / unknown (document: no-wrap between widths)
            return a if op == 'zext' or self.bases[a[0]].bits > 1 else (self.cons('op', (op,) + tuple(args), bits), 0)
        if op == 'trunc':
            bb = self.bases[a[0]]
            if bits == 1:
                if bb.bits == 1:
                    return a
                return self.mkop(st, 'icmp', ('ne', a, 0, max(bb.bits, 8)), 1)
            if bb.bits <= bits:
                return a
        if op == 'lshr' and type(b) is int:
            pass
        return (self.cons('op', (op,) + tuple(args), bits), 0)

    NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
    SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}

    def mknot(self, st, v):
        v = self.resolve(st, v)
        if type(v) is int:
            return 1 - (v & 1)
        b = self.bases[v[0]]
        if b.kind == 'op' and b.info[0] == 'icmp':
            p, x, y, w = b.info[1:]
            return self.mkop(st, 'icmp', (self.NEG[p], x, y, w), 1)
        return self.mkop(st, 'icmp', ('eq', v, 0, 1), 1)

    def islocalobj(self, b):
        return self.bases[b].kind in ('alloca', 'new', 'global', 'fn')

    def cmp(self, st, p, a, b, w):
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if type(a) is int and type(b) is int:
            return cmpconst(p, a, b, w)
        if type(a) is int:
            a, b, p = b, a, self.SWAP[p]
        if not issym(a) or not (type(b) is int or issym(b)):
            return None
        if p in ('eq', 'ne'):
            r = self._eq(st, a, b, w)
            if r is None:
                return None
            return r if p == 'eq' else not r
        if type(b) is int:
            # boolean-ish: icmp against constant
            lo, hi, slo, shi = self.range(st, a, w)
            if p[0] == 'u':
                c = b
                if p == 'ult':
                    return True if hi < c else False if lo >= c else None
                if p == 'ule':
                    return True if hi <= c else False if lo > c else None
                if p == 'ugt':
                    return True if lo > c else False if hi <= c else None
                return True if lo >= c else False if hi < c else None
            c = sgn(b, w)
            if p == 'slt':
                return True if shi < c else False if slo >= c else None
            if p == 'sle':
                return True if shi <= c else False if slo > c else None
            if p == 'sgt':
                return True if slo > c else False if shi <= c else None
            return True if slo >= c else False if shi < c else None
        if a[0] == b[0]:
            d = a[1] - b[1]
            return {'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p[1:]]
        # previously decided pair
        r = self._order(st, p, a, b)
        if r is not None:
            return r
        la = self.range(st, a, w)
        lb = self.range(st, b, w)
        k = 0 if p[0] == 'u' else 2
        alo, ahi, blo, bhi = la[k], la[k + 1], lb[k], lb[k + 1]
        q = p[1:]
        if q == 'lt':
            return True if ahi < blo else False if alo >= bhi else None
        if q == 'le':
            return True if ahi <= blo else False if alo > bhi else None
        if q == 'gt':
            return True if alo > bhi else False if ahi <= blo else None
        return True if alo >= bhi else False if ahi < blo else None

    def _order(self, st, p, a, b):
        """facts on (a.base - b.base): st.dec[(sgn,a,b)] = (lo,hi) bounds of a-b as mathematical integers"""
        s = p[0]
        k = (s, a[0], b[0])
        bd = st.dec.get(k)
        neg = False
        if bd is None:
            bd = st.dec.get((s, b[0], a[0]))
            if bd is None:
                return None
            bd = (None if bd[1] is None else -bd[1], None if bd[0] is None else -bd[0])
        lo, hi = bd
        d = a[1] - b[1]
        lo = None if lo is None else lo + d
        hi = None if hi is None else hi + d
        q = p[1:]
        if q == 'lt':
            return True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        if q == 'le':
            return True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None
        if q == 'gt':
            return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
        return True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None

    def range(self, st, v, w):
        b, off = v
        r = st.rng.get(b)
        bo = self.bases[b]
        if r is None:
            bits = min(bo.bits, w) if bo.bits else w
            if bo.kind in ('alloca', 'new', 'global', 'fn'):
                r = (4096, (1 << 47), 4096, 1 << 47)
            elif bits == 1:
                r = (0, 1, 0, 1)
            else:
                r = (0, (1 << bits) - 1, -(1 << (bits - 1)) if bits == w else 0, (1 << (bits - 1)) - 1 if bits == w else (1 << bits) - 1)
                if bo.kind == 'op':
                    op = bo.info[0]
                    if op == 'and':
                        for x in bo.info[1:]:
                            if type(x) is int and x < (1 << (w - 1)):
                                r = (0, x, 0, x)
                    elif op == 'urem' and type(bo.info[2]) is int:
                        r = (0, bo.info[2] - 1, 0, bo.info[2] - 1)
                    elif op == 'lshr' and type(bo.info[2]) is int:
                        mx = ((1 << w) - 1) >> bo.info[2]
                        r = (0, mx, 0, mx)
        if off:
            lo, hi, slo, shi = r
            return (lo + off, hi + off, slo + off, shi + off)
        return r

    def _eq(self, st, a, b, w):
        m = (1 << w) - 1
        if type(b) is int:
            base, off = a
            c = (b - off) & m
            ne = st.ne.get(base)
            if ne and c in ne:
                return False
            bo = self.bases[base]
            if bo.kind in ('alloca', 'new', 'global', 'fn'):
                if b == 0 and bo.kind == 'global' and self.is_weak_extern(bo.info):
                    return None
                return False if b < 4096 or b > (1 << 48) else None
            lo, hi, slo, shi = self.range(st, (base, 0), w)
            if c < lo or c > hi:
                sc = sgn(c, w)
                if not (slo <= sc <= shi) or lo > 0 or hi < m:
                    if not (lo <= c <= hi) and not (slo <= sc <= shi and slo < 0):
                        return False
            sc = sgn(c, w)
            if sc < slo or sc > shi:
                return False
            if bo.kind == 'op':
                r = self.opne(st, bo, c)
                if r:
                    return False
            return None
        if a[0] == b[0]:
            return a[1] == b[1]
        ka, kb = self.bases[a[0]], self.bases[b[0]]
        d = (b[1] - a[1])
        k = (a[0], b[0], d) if a[0] < b[0] else (b[0], a[0], -d)
        if k in st.ne:
            return False
        la, lb = ka.kind in ('alloca', 'new', 'global', 'fn'), kb.kind in ('alloca', 'new', 'global', 'fn')
        if la and lb:
            return False
        for o, ob, x in ((a, ka, kb), (b, kb, ka)):
            if ob.kind in ('alloca', 'new'):
                if o[0] not in st.esc or x.seq < ob.seq:
                    return False
        bd = st.dec.get(('u', a[0], b[0])) or st.dec.get(('s', a[0], b[0]))
        if bd:
            dd = b[1] - a[1]
            if (bd[0] is not None and bd[0] > dd) or (bd[1] is not None and bd[1] < dd):
                return False
        else:
            bd = st.dec.get(('u', b[0], a[0])) or st.dec.get(('s', b[0], a[0]))
            if bd:
                dd = a[1] - b[1]
                if (bd[0] is not None and bd[0] > dd) or (bd[1] is not None and bd[1] < dd):
                    return False
        return None

    def opne(self, st, bo, c):
        op = bo.info[0]
        if op == 'or' and type(bo.info[2]) is int and (c & bo.info[2]) != bo.info[2]:
            return True
        if op == 'shl' and type(bo.info[2]) is int and c & ((1 << bo.info[2]) - 1):
            return True
        if op == 'mul' and type(bo.info[2]) is int and bo.info[2] % 2 == 0 and c % 2:
            return True
        return False

    def is_weak_extern(self, name):
        return name in ('__pthread_key_create', '_ZL28__gthrw___pthread_key_createPjPFvPvE', '__cxa_thread_atexit')

    def assume(self, st, v, truth):
        """returns list of states in which v == truth (st may be reused)"""
        v = self.resolve(st, v)
        if type(v) is int:
            return [st] if bool(v & 1) == truth else []
        b = self.bases[v[0]]
        if b.kind == 'op':
            op = b.info[0]
            if op == 'icmp':
                p, x, y, w = b.info[1:]
                return self.assume_cmp(st, p if truth else self.NEG[p], x, y, w)
            if op in ('and', 'or') and b.bits == 1:
                x, y = b.info[1], b.info[2]
                if (op == 'and') == truth:
                    out = []
                    for s in self.assume(st, x, truth):
                        out += self.assume(s, y, truth)
                    return out
                s2 = st.fork()
                out = self.assume(st, x, truth)
                for s in self.assume(s2, x, not truth):
                    out += self.assume(s, y, truth)
                return out
        st.eq[v[0]] = 1 if truth else 0
        st.rc = {}
        return [st]

    def assume_cmp(self, st, p, x, y, w):
        d = self.cmp(st, p, x, y, w)
        if d is True:
            return [st]
        if d is False:
            return []
        x = self.resolve(st, x)
        y = self.resolve(st, y)
        if type(x) is int:
            x, y, p = y, x, self.SWAP[p]
        m = (1 << w) - 1
        if p == 'eq':
            if type(y) is int:
                c = (y - x[1]) & m
                bo = self.bases[x[0]]
                if bo.bits == 1 and bo.kind == 'op' and bo.info[0] == 'icmp':
                    return self.assume(st, (x[0], 0), bool(c))
                self.seteq(st, x[0], c)
            else:
                # point the younger symbolic base at the older / more concrete one
                kx, ky = self.bases[x[0]], self.bases[y[0]]
                cx = kx.kind in ('alloca', 'new', 'global', 'fn')
                cy = ky.kind in ('alloca', 'new', 'global', 'fn')
                if cx or (not cy and kx.seq < ky.seq):
                    x, y = y, x
                self.seteq(st, x[0], (y[0], y[1] - x[1]))
            return [st]
        if p == 'ne':
            if type(y) is int:
                bo = self.bases[x[0]]
                c = (y - x[1]) & m
                if bo.bits == 1:
                    return self.assume(st, (x[0], 0), not c) if bo.kind == 'op' else (self.seteq(st, x[0], 1 - c) or [st])
                st.ne[x[0]] = st.ne.get(x[0], frozenset()) | {c}
                r = self.range(st, (x[0], 0), w)
                lo, hi, slo, shi = r
                if slo >= 0 and hi < (1 << (w - 1)) and (c == lo or c == hi):
                    ne = st.ne[x[0]]
                    while lo in ne and lo <= hi:
                        lo += 1
                    while hi in ne and hi >= lo:
                        hi -= 1
                    if lo > hi:
                        return []
                    st.rng[x[0]] = (lo, hi, lo, hi)
                    if lo == hi:
                        self.seteq(st, x[0], lo)
                elif c == lo and slo >= 0:
                    lo += 1
                    slo = max(slo, lo)
                    st.rng[x[0]] = (lo, hi, slo, shi)
                elif c == hi and slo >= 0:
                    hi -= 1
                    st.rng[x[0]] = (lo, hi, slo, min(shi, hi))
            else:
                d = y[1] - x[1]
                k = (x[0], y[0], d) if x[0] < y[0] else (y[0], x[0], -d)
                st.ne[k] = True
            st.rc = {}
            return [st]
        # order
        if type(y) is int:
            base, off = x
            lo, hi, slo, shi = self.range(st, (base, 0), w)
            if p[0] == 'u':
                c = y - off
                if p == 'ult':
                    hi = min(hi, c - 1)
                elif p == 'ule':
                    hi = min(hi, c)
                elif p == 'ugt':
                    lo = max(lo, c + 1)
                else:
                    lo = max(lo, c)
                if hi < (1 << (w - 1)):
                    slo, shi = max(slo, lo, 0), min(shi, hi)
            else:
                c = sgn(y, w) - off
                if p == 'slt':
                    shi = min(shi, c - 1)
                elif p == 'sle':
                    shi = min(shi, c)
                elif p == 'sgt':
                    slo = max(slo, c + 1)
                else:
                    slo = max(slo, c)
                if slo >= 0:
                    lo, hi = max(lo, slo), min(hi, shi)
            ne = st.ne.get(base)
            if ne:
                while lo in ne:
                    lo += 1
                    if slo >= 0:
                        slo = max(slo, lo)
                while hi in ne and hi > lo:
                    hi -= 1
                    shi = min(shi, hi)
            if lo > hi or slo > shi:
                return []
            st.rng[base] = (lo, hi, slo, shi)
            if lo == hi and slo == shi:
                self.seteq(st, base, lo & m)
            elif slo == shi:
                self.seteq(st, base, slo & m)
            st.rc = {}
            return [st]
        s = p[0]
        d = y[1] - x[1]  # x.base - y.base <p> d
        k = (s, x[0], y[0])
        lo, hi = st.dec.get(k, (None, None))
        q = p[1:]
        if q == 'lt':
            hi = d - 1 if hi is None else min(hi, d - 1)
        elif q == 'le':
            hi = d if hi is None else min(hi, d)
        elif q == 'gt':
            lo = d + 1 if lo is None else max(lo, d + 1)
        else:
            lo = d if lo is None else max(lo, d)
        if lo is not None and hi is not None and lo > hi:
            return []
        st.dec[k] = (lo, hi)
        st.rc = {}
        return [st]

    def seteq(self, st, base, v):
        st.eq[base] = v
        st.rc = {}
        # merge memory and hints
        if type(v) is tuple:
            tgt, doff = v
            if base in st.mem:
                om = st.mem.pop(base)
                nm = self.wmem(st, tgt)
                for o, (s, val) in om.items():
                    nm.setdefault(o + doff, (s, val))
            if base in st.hint:
                for o, c in st.hint[base]:
                    self.addhint(st, tgt, o + doff, c)
            if base in st.esc:
                self.escape(st, (tgt, 0))

    # ------------------------------------------------------------ memory
    def wmem(self, st, b):
        m = st.mem.get(b)
        if m is None:
            m = {}
            st.mem[b] = m
            st.own.add(b)
        elif b not in st.own:
            m = dict(m)
            st.mem[b] = m
            st.own.add(b)
        return m

    def addhint(self, st, b, off, cid):
        h = st.hint.get(b)
        if h is None:
            st.hint[b] = frozenset([(off, cid)])
        elif (off, cid) not in h:
            st.hint[b] = h | {(off, cid)}

    def fresh_for(self, st, addr, size, why):
        bits = size * 8
        b, off = addr
        bk = self.bases[b].kind
        kind = 'undef' if bk in ('alloca', 'new') and b not in st.esc else why
        return self.sym(kind, (b, off, st.ver), min(bits, 64) if bits else 8)

    def load(self, st, addr, size, ty, record=True):
        addr = self.resolve(st, addr)
        if type(addr) is int:
            self.event(st, 'nullderef', {'addr': addr})
            return self.sym('undef', None, size * 8)
        b, off = addr
        bo = self.bases[b]
        if bo.kind == 'global':
            v = self.gload(bo.info, off, size)
            if v is not None:
                return v
        m = st.mem.get(b)
        if m is not None:
            e = m.get(off)
            if e is not None and e[0] == size:
                return e[1]
            if e is not None or any(o < off + size and o + s > off for o, (s, _) in m.items()):
                v = self.partial(st, m, off, size)
                if v is not None:
                    return v
        v = self.fresh_for(st, addr, size, 'load')
        if self.on_fresh:
            self.on_fresh(self, st, addr, v, size)
        self.wmem(st, b)[off] = (size, v)
        return v

    def partial(self, st, m, off, size):
        # whole inside a larger entry
        for o, (s, v) in m.items():
            if o <= off and off + size <= o + s and s > size:
                v = self.resolve(st, v)
                sh = (off - o) * 8
                if type(v) is int:
                    return (v >> sh) & ((1 << (size * 8)) - 1)
                if issym(v):
                    if sh == 0:
                        return self.mkop(st, 'trunc', (v,), size * 8)
                    return self.mkop(st, 'trunc', (self.mkop(st, 'lshr', (v, sh), s * 8),), size * 8)
                if type(v) is tuple and v[0] == 'agg':
                    return None
        # composed of smaller constants
        acc = 0
        cur = off
        while cur < off + size:
            e = m.get(cur)
            if e is None or cur + e[0] > off + size:
                return None
            v = self.resolve(st, e[1])
            if type(v) is not int:
                return None
            acc |= (v & ((1 << (e[0] * 8)) - 1)) << ((cur - off) * 8)
            cur += e[0]
        return acc

    def gload(self, name, off, size):
        g = self.m.globals.get(name)
        if g is None or 'i' not in g:
            return None
        if not g.get('c'):
            # the vptr of a constant-initialised object never changes
            if size != 8 or g['i'][0] == 'z':
                return None
            v = self.initval(g['i'], off, size)
            if issym(v) and self.bases[v[0]].kind == 'global' and str(self.bases[v[0]].info).startswith('_ZTV'):
                return v
            return None
        return self.initval(g['i'], off, size)

    def initval(self, i, off, size):
        k = i[0]
        if k == 'a':
            for o, c, s in i[1]:
                if o <= off < o + max(s, 1):
                    return self.initval(c, off - o, size)
            return None
        if k == 'z':
            return 0
        if off == 0:
            if k == 'c':
                return int(i[1]) & ((1 << (size * 8)) - 1)
            if k == 'g':
                return self.gref(i[1], i[2])
            if k == 'f':
                return (self.cons('fconst', i[1], size * 8), 0)
        elif k == 'c':
            return (int(i[1]) >> (off * 8)) & ((1 << (size * 8)) - 1)
        return None

    def store(self, st, addr, size, val):
        addr = self.resolve(st, addr)
        if type(addr) is int:
            self.event(st, 'nullderef', {'addr': addr})
            return
        b, off = addr
        m = self.wmem(st, b)
        e = m.get(off)
        if e is None or e[0] != size:
            for o in [o for o, (s, _) in m.items() if o < off + size and o + s > off]:
                s, v = m.pop(o)
                rv = self.resolve(st, v)
                if type(rv) is int:
                    for k in range(s):
                        if not (off <= o + k < off + size):
                            m[o + k] = (1, (rv >> (8 * k)) & 255)
        if type(val) is tuple and val[0] == 'agg':
            m[off] = (size, val)
        else:
            m[off] = (size, val)
        bk = self.bases[b].kind
        if bk not in ('alloca', 'new') or b in st.esc:
            self.escape(st, val)

    def escape(self, st, v):
        todo = [v]
        while todo:
            v = todo.pop()
            v = self.resolve(st, v)
            if type(v) is tuple and v[0] == 'agg':
                todo += list(v[1])
                continue
            if not issym(v):
                continue
            b = v[0]
            if b in st.esc:
                continue
            k = self.bases[b].kind
            if k not in ('alloca', 'new'):
                continue
            st.esc.add(b)
            mm = st.mem.get(b)
            if mm:
                todo += [x for _, x in mm.values()]

    def havoc(self, st, keep=lambda b: False):
        """forget everything another thread may have changed: all non-local, non-const memory"""
        st.ver += 1
        for b in list(st.mem):
            bo = self.bases[b]
            if bo.kind in ('alloca', 'new') and b not in st.esc:
                continue
            if keep(b):
                continue
            m = st.mem[b]
            nm = {}
            for o, (s, v) in m.items():
                rv = self.resolve(st, v)
                if s == 8 and issym(rv) and (self.bases[rv[0]].kind == 'global' and str(self.bases[rv[0]].info).startswith('_ZTV') or self.bases[rv[0]].kind == 'vptr'):
                    nm[o] = (s, v)
                elif b in st.user.get('stable', ()):
                    nm[o] = (s, v)
            st.mem[b] = nm
            st.own.add(b)

    def havoc_base(self, st, addr, size=None):
        addr = self.resolve(st, addr)
        if not issym(addr):
            return
        b, off = addr
        if self.bases[b].kind == 'global' and self.m.globals.get(self.bases[b].info, {}).get('c'):
            return
        if b in st.mem:
            m = self.wmem(st, b)
            for o in [o for o, (s, _) in m.items() if o + s > off and (size is None or o < off + size)]:
                del m[o]

    def memcpy(self, st, dst, src, n):
        dst, src = self.resolve(st, dst), self.resolve(st, src)
        n = self.resolve(st, n)
        if not issym(dst):
            return
        if type(n) is not int:
            self.havoc_base(st, dst)
            return
        if not issym(src):
            return
        ent = []
        sm = st.mem.get(src[0], {})
        sb = self.bases[src[0]]
        cur = src[1]
        end = src[1] + n
        offs = sorted(o for o, (s, _) in sm.items() if o + s > cur and o < end)
        isconst = sb.kind == 'global' and self.m.globals.get(sb.info, {}).get('c')
        while cur < end:
            e = sm.get(cur)
            if e is not None and cur + e[0] <= end:
                ent.append((cur - src[1], e[0], e[1]))
                cur += e[0]
                continue
            nxt = min([o for o in offs if o > cur] + [end])
            step = 8 if cur % 8 == 0 and nxt - cur >= 8 else 4 if cur % 4 == 0 and nxt - cur >= 4 else 1
            if any(o <= cur < o + sm[o][0] for o in offs):
                v = self.load(st, (src[0], cur), 1, 8)
                step = 1
            elif sb.kind in ('alloca', 'new') and src[0] not in st.esc and not isconst:
                cur += step
                continue
            else:
                v = self.load(st, (src[0], cur), step, step * 8)
                sm = st.mem.get(src[0], sm)
            ent.append((cur - src[1], step, v))
            cur += step
        self.havoc_base(st, dst, n)
        for o, s, v in ent:
            self.store(st, (dst[0], dst[1] + o), s, v)

    # ------------------------------------------------------------ naming
    def locname(self, st, addr):
        """(member name, class) at an address, or None"""
        addr = self.resolve(st, addr)
        if not issym(addr):
            return None
        b, off = addr
        bo = self.bases[b]
        best = None
        for ho, cid in sorted(st.hint.get(b, ()), key=lambda x: (x[0], str(x[1]))):
            c = self.m.classes.get(cid)
            if not c or not (ho <= off < ho + max(c['s'], 1)):
                continue
            p = self.m.field(cid, off - ho)
            own = [x for x in p if x[0].startswith('yaclib')]
            if own:
                x = own[-1]
                if best is None or len(own) > best[0]:
                    best = (len(own), x[1], x[0])
            elif p and best is None:
                best = (0, p[0][1], p[0][0])
        if best:
            return (best[1], best[2])
        if bo.kind == 'global':
            g = self.m.globals.get(bo.info)
            n = (g or {}).get('n') or bo.info
            return (n, '')
        return None

    def fmt(self, st, v):
        v = self.resolve(st, v)
        if type(v) is int:
            return 'kResult' if v == M64 else str(v)
        if not issym(v):
            return str(v)
        b = self.bases[v[0]]
        n = b.kind
        if b.kind == 'global':
            n = '&' + str(b.info)
        elif b.kind == 'op':
            n = '%s(%s)' % (b.info[0], ','.join(self.fmt(st, x) if type(x) is tuple else str(x) for x in b.info[1:]))
        elif b.kind in ('arg',):
            n = 'arg%s' % (b.info,)
        else:
            n = '%s#%d' % (b.kind, v[0])
        return n + ('%+d' % v[1] if v[1] else '')

    # ------------------------------------------------------------ events
    def event(self, st, k, d):
        fr = st.frames[-1] if st.frames else None
        e = Ev(k, d, fr.fn.qn or fr.fn.sn if fr else '', d.pop('_l', 0) if d else 0, tuple(f.fn.name for f in st.frames))
        e.i = st.nev
        st.nev += 1
        st.ev = (st.ev, e)
        return e

    # ------------------------------------------------------------ run
    def run(self, fn, args=None, init=None):
        if isinstance(fn, str):
            fn = self.m.fns[self.m.aliases.get(fn, fn)]
        if not fn.blocks:
            raise AnalysisError('no body for ' + fn.name)
        st = State()
        vals = []
        names = []
        pt = fn.pt[1:]
        k = 0
        for i, a in enumerate(fn.args):
            if args is not None and i in args:
                v = args[i]
            elif a.get('sret'):
                v = self.sym('alloca', 'sret')
            elif a['t'] == 'p':
                v = self.sym('arg', i)
            elif type(a['t']) is int:
                v = self.sym('arg', i, a['t'])
            else:
                v = self.sym('arg', i)
            if a['t'] == 'p' and issym(v) and not a.get('sret') and self.bases[v[0]].kind == 'arg':
                st.ne[v[0]] = frozenset([0, M64])
                r = self.range(st, (v[0], 0), 64)
                st.rng[v[0]] = (4096, 1 << 47, 4096, 1 << 47)
                t = fn.pt[i + 1] if i + 1 < len(fn.pt) else None
                if isinstance(t, str) and t.startswith('*') and t[1:] in self.m.classes:
                    self.even.add(v[0])
            vals.append(v)
        self.args = vals
        # type hints from the declared parameter types
        off = 1 if fn.args and fn.args[0].get('sret') else 0
        for i, t in enumerate(pt):
            j = i + off
            if j < len(vals) and isinstance(t, str) and t.startswith('*') and issym(vals[j]):
                self.addhint(st, vals[j][0], vals[j][1], t[1:])
        self.push(st, fn, vals, None, None, 0)
        if init:
            init(self, st, vals)
        return self.drain([st], fn)

    def drain(self, work, fn):
        out = []
        while work:
            s = work.pop()
            res = self.exec(s)
            if res is None:
                continue
            if isinstance(res, Path):
                out.append(res)
                if self.prune and self.prune(res):
                    out.pop()
                if len(out) > self.MAXPATHS:
                    raise AnalysisError('path budget exceeded in ' + fn.dn)
            else:
                work.extend(reversed(res))
        return out

    def resume(self, path, fn, vals, init=None):
        """continue from a finished path: call fn(vals) on the abstract state it left behind"""
        if isinstance(fn, str):
            fn = self.m.fns[self.m.aliases.get(fn, fn)]
        st = path.st.fork()
        st.frames = []
        st.exc = None
        st.caught = ()
        vals = list(vals)
        while len(vals) < len(fn.args):
            a = fn.args[len(vals)]
            vals.append(self.sym('arg', 'r%d' % len(vals), a['t'] if type(a['t']) is int else 64))
        self.event(st, 'phase', {'fn': fn.name, 'sn': fn.sn, 'vals': tuple(vals)})
        self.push(st, fn, vals, None, None, 0)
        if init:
            init(self, st, vals)
        return self.drain([st], fn)

    def push(self, st, fn, vals, ret, inv, line):
        f = Frame()
        f.fn, f.b, f.i, f.pb, f.ret, f.inv = fn, 0, 0, -1, ret, inv
        f.r = {}
        f.vis = {0: [st.forks, 1]}
        f.shared = False
        f.mark = None
        f.depthline = line
        for a, v in zip(fn.args, vals):
            f.r[a['i']] = v
        st.frames.append(f)
        self.visited_fns.add(fn.name)
        if fn.cls and not fn.static and vals:
            k = 1 if fn.args and fn.args[0].get('sret') else 0
            if k < len(vals):
                t = self.resolve(st, vals[k])
                if issym(t):
                    self.addhint(st, t[0], t[1], fn.cls)

    def val(self, st, r, o):
        k = o[0]
        if k == 'v':
            return r[o[1]]
        if k == 'c':
            return int(o[1])
        if k == 'g':
            return self.gref(o[1], o[2])
        if k == 'u':
            return self.sym('undef', None)
        if k == 'f':
            return (self.cons('fconst', o[1], 64), 0)
        if k == 'z':
            return ('agg', (0,) * 8)
        if k == 'a':
            return ('agg', tuple(self.val(st, r, c) for _, c, _ in o[1]))
        if k == 'm':
            return o
        if k == 'e':
            return self.sym('undef', 'constexpr')
        return self.sym('undef', None)

    def goto(self, st, f, b):
        f.pb = f.b
        f.b = b
        f.i = 0
        v = f.vis.get(b)
        if v is None:
            f.vis[b] = [st.forks, 1, 1]
            return True
        n = v[1] + (1 if st.forks != v[0] else 0)
        tot = (v[2] if len(v) > 2 else 1) + 1
        f.vis[b] = [st.forks, n, tot]
        return n <= self.LOOP and tot <= 70

    def end(self, st, kind, ret=None):
        return Path(self, st, kind, ret)

    def top(self, st):
        f = st.frames[-1]
        if f.shared:
            f = f.copy()
            st.frames[-1] = f
        return f

    def exec(self, st):
        f = self.top(st)
        while True:
            blk = f.fn.blocks[f.b]
            ins = blk[f.i]
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise AnalysisError('step budget exceeded in ' + f.fn.dn)
            op = ins['op']
            h = self.H.get(op)
            if h is None:
                raise AnalysisError('unhandled instruction ' + op)
            res = h(self, st, f, ins)
            if res is None:
                f.i += 1
                continue
            if res is CONT:
                f = self.top(st)
                continue
            return res

    # each handler returns None (advance), CONT (control changed in st) or list/Path
    def i_alloca(self, st, f, ins):
        f.r[ins['i']] = self.sym('alloca', (f.fn.name, ins['s'], len(st.frames)))

    def i_load(self, st, f, ins):
        addr = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        ty = ins['t']
        size = ins['s']
        atomic = 'ord' in ins
        if atomic and self.preop:
            res = self.preop(st, f, ins, addr)
            if res is not None:
                return res
        self.chkfree(st, addr, ins)
        if atomic and issym(addr) and not self.privword(st, addr):
            v = self.sym('aload', (addr, st.nev), size * 8)
            self.event(st, 'aload', {'addr': addr, 'val': v, 'ord': ins['ord'], 'size': size, '_l': ins.get('l', 0), 'bits': ty if type(ty) is int else 64})
        elif type(ty) is list:
            v = ('agg', tuple(self.load(st, (addr[0], addr[1] + o), tsize(t), t) for o, t in ty[1])) if issym(addr) else self.sym('undef')
        else:
            v = self.load(st, addr, size, ty)
            if issym(v) and ty == 'p' and issym(addr) and addr[1] == 0 and False:
                pass
            if self.record_mem and issym(addr):
                bk = self.bases[addr[0]].kind
                if bk != 'alloca' or addr[0] in st.esc:
                    self.event(st, 'ald' if atomic else 'ld', {'addr': addr, 'val': v, 'size': size, 'ord': ins.get('ord'), '_l': ins.get('l', 0)})
            if type(ty) is int and issym(v) and ty < 64 and self.bases[v[0]].bits > ty and self.bases[v[0]].kind in ('load', 'undef'):
                self.bases[v[0]].bits = ty if ty > 1 else 8
        f.r[ins['i']] = v

    def chkfree(self, st, addr, ins):
        if issym(addr) and addr[0] in st.freed:
            self.event(st, 'uaf', {'addr': addr, 'freed': st.freed[addr[0]], '_l': ins.get('l', 0)})

    def i_store(self, st, f, ins):
        v = self.val(st, f.r, ins['a'][0])
        addr = self.resolve(st, self.val(st, f.r, ins['a'][1]))
        atomic = 'ord' in ins
        if atomic and self.preop:
            res = self.preop(st, f, ins, addr)
            if res is not None:
                return res
        self.chkfree(st, addr, ins)
        if issym(addr):
            bk = self.bases[addr[0]].kind
            if atomic and not self.privword(st, addr):
                self.escape(st, v)
                self.event(st, 'astore', {'addr': addr, 'val': v, 'ord': ins['ord'], 'size': ins['s'], '_l': ins.get('l', 0)})
            elif self.record_mem and (bk != 'alloca' or addr[0] in st.esc):
                self.event(st, 'ast' if atomic else 'st', {'addr': addr, 'val': v, 'size': ins['s'], 'ord': ins.get('ord'), '_l': ins.get('l', 0), 'vol': ins.get('vol')})
        vt = ins.get('vt')
        if type(vt) is list and type(v) is tuple and v[0] == 'agg' and issym(addr):
            for (o, t), x in zip(vt[1], v[1]):
                self.store(st, (addr[0], addr[1] + o), tsize(t), x)
        else:
            self.store(st, addr, ins['s'], v)

    def privword(self, st, addr):
        """no other thread can access the atomic word"""
        b = addr[0]
        return self.concrete_atomics or b in st.user.get('priv', ()) or (self.bases[b].kind in ('alloca', 'new') and b not in st.esc)

    def i_cmpxchg(self, st, f, ins):
        r = f.r
        addr = self.resolve(st, self.val(st, r, ins['a'][0]))
        exp = self.val(st, r, ins['a'][1])
        des = self.val(st, r, ins['a'][2])
        if self.preop:
            res = self.preop(st, f, ins, addr)
            if res is not None:
                return res
        self.chkfree(st, addr, ins)
        bits = ins['s'] * 8
        local = issym(addr) and self.privword(st, addr)
        f.i += 1
        base = {'addr': addr, 'exp': exp, 'des': des, 'so': ins['so'], 'fo': ins['fo'], 'weak': ins['weak'], '_l': ins.get('l', 0), 'local': local, 'size': ins['s']}
        out = []
        # failure
        st.forks += 1
        s2 = st.fork()
        if local:
            cur = self.load(st, addr, ins['s'], bits)
        else:
            cur = None
        # success branch in st
        ok = [st] if not local else self.assume_cmp(st, 'eq', cur, exp, bits)
        for s in ok:
            ff = self.top(s)
            ff.r[ins['i']] = ('agg', (exp, 1))
            if not local:
                self.escape(s, des)
            self.event(s, 'cas', dict(base, ok=True, old=exp))
            self.store(s, addr, ins['s'], des)
            out.append(s)
        if local:
            fl = self.assume_cmp(s2, 'ne', cur, exp, bits) if not ins['weak'] else [s2]
            old = cur
        else:
            old = self.sym('casold', (addr, s2.nev), bits)
            fl = [s2] if ins['weak'] else self.assume_cmp(s2, 'ne', old, exp, bits)
        for s in fl:
            ff = self.top(s)
            ff.r[ins['i']] = ('agg', (old, 0))
            self.event(s, 'cas', dict(base, ok=False, old=old))
            out.append(s)
        return out

    def i_atomicrmw(self, st, f, ins):
        addr = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        v = self.val(st, f.r, ins['a'][1])
        if self.preop:
            res = self.preop(st, f, ins, addr)
            if res is not None:
                return res
        self.chkfree(st, addr, ins)
        bits = ins['s'] * 8
        local = issym(addr) and self.privword(st, addr)
        if local:
            old = self.load(st, addr, ins['s'], bits)
        else:
            old = self.sym('rmwold', (addr, st.nev), bits)
            self.escape(st, v)
        rmw = ins['rmw']
        self.event(st, 'rmw', {'rmw': rmw, 'addr': addr, 'val': v, 'ord': ins['ord'], 'old': old, '_l': ins.get('l', 0), 'size': ins['s'], 'local': local})
        if rmw == 'xchg':
            nv = v
        else:
            a, b = self.resolve(st, old), self.resolve(st, v)
            if rmw == 'nand':
                nv = self.mkop(st, 'xor', (self.mkop(st, 'and', (a, b), bits), (1 << bits) - 1), bits)
            elif rmw in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.mkop(st, rmw, (a, b), bits)
            else:
                nv = self.sym('op' + rmw, None, bits)
        self.store(st, addr, ins['s'], nv)
        f.r[ins['i']] = old

    def i_fence(self, st, f, ins):
        self.event(st, 'fence', {'ord': ins['ord'], 'ss': ins.get('ss'), '_l': ins.get('l', 0)})

    def i_gep(self, st, f, ins):
        b = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        off = ins['o']
        x = ins.get('x')
        if x:
            for vo, sc in x:
                v = self.resolve(st, self.val(st, f.r, vo))
                if type(v) is int:
                    off += sgn(v, 64) * sc
                else:
                    t = self.mkop(st, 'mul', (v, sc & M64), 64)
                    if type(t) is int:
                        off += t
                    elif sc == 1:
                        b = self.mkop(st, 'add', (b, t), 64) if not (type(b) is int and b == 0) else t
                    else:
                        # base + v*sc: distribute constant offset of v
                        vb, vo2 = v
                        t = self.mkop(st, 'mul', ((vb, 0), sc & M64), 64)
                        off += vo2 * sc
                        b = self.mkop(st, 'add', (b, t), 64)
        if type(b) is int:
            f.r[ins['i']] = (b + off) & M64
        else:
            f.r[ins['i']] = (b[0], b[1] + off)

    def i_bin(self, st, f, ins):
        a = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        b = self.resolve(st, self.val(st, f.r, ins['a'][1]))
        ty = ins['t']
        if type(ty) is not int or not (type(a) is int or issym(a)) or not (type(b) is int or issym(b)):
            f.r[ins['i']] = (self.cons('op', (ins['op'], a, b), 64), 0)
            return
        if self.nsw_event and (ins.get('nsw')):
            self.event(st, 'nsw', {'opc': ins['op'], 'a': a, 'b': b, '_l': ins.get('l', 0)})
        f.r[ins['i']] = self.mkop(st, ins['op'], (a, b), ty)

    nsw_event = False

    def i_icmp(self, st, f, ins):
        a = self.val(st, f.r, ins['a'][0])
        b = self.val(st, f.r, ins['a'][1])
        vt = ins['vt']
        w = vt if type(vt) is int else 64
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if type(a) is int:
            a &= (1 << w) - 1
        if type(b) is int:
            b &= (1 << w) - 1
        f.r[ins['i']] = self.mkicmp(st, ins['p'], a, b, w)

    def mkicmp(self, st, p, a, b, w):
        # icmp ne bool,0 -> bool
        if type(b) is int and issym(a) and a[1] == 0 and self.bases[a[0]].bits == 1:
            if p == 'ne' and b == 0 or p == 'eq' and b == 1:
                return a
            if p == 'eq' and b == 0 or p == 'ne' and b == 1:
                return self.mknot(st, a)
        return self.mkop(st, 'icmp', (p, a, b, w), 1)

    def i_fcmp(self, st, f, ins):
        a = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        b = self.resolve(st, self.val(st, f.r, ins['a'][1]))
        f.r[ins['i']] = (self.cons('op', ('fcmp', ins['p'], a, b), 1), 0)

    def i_cast(self, st, f, ins):
        v = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        op = ins['op']
        ty = ins['t']
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            f.r[ins['i']] = v
            return
        if type(v) is int:
            if op == 'zext':
                f.r[ins['i']] = v
                return
            if op == 'sext':
                f.r[ins['i']] = sgn(v, ins['vt']) & ((1 << ty) - 1)
                return
            if op == 'trunc':
                f.r[ins['i']] = v & ((1 << ty) - 1)
                return
        if issym(v) and op in ('zext', 'sext', 'trunc'):
            if op == 'zext' and type(ins.get('vt')) is int and v[1] and self.bases[v[0]].bits <= ins['vt'] < ty:
                pass
            f.r[ins['i']] = self.mkop(st, op, (v,), ty)
            return
        f.r[ins['i']] = (self.cons('op', (op, v, str(ty)), ty if type(ty) is int else 64), 0)

    def i_fbin(self, st, f, ins):
        a = [self.resolve(st, self.val(st, f.r, x)) for x in ins['a']]
        f.r[ins['i']] = (self.cons('op', (ins['op'],) + tuple(a), 64), 0)

    def i_select(self, st, f, ins):
        c = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        a = self.val(st, f.r, ins['a'][1])
        b = self.val(st, f.r, ins['a'][2])
        if type(c) is int:
            f.r[ins['i']] = a if c & 1 else b
            return
        if self.on_branch:
            self.on_branch(st, f, c)
        f.i += 1
        st.forks += 1
        s2 = st.fork()
        out = []
        for s in self.assume(st, c, True):
            self.top(s).r[ins['i']] = a
            out.append(s)
        for s in self.assume(s2, c, False):
            self.top(s).r[ins['i']] = b
            out.append(s)
        return out

    def i_phi(self, st, f, ins):
        # evaluate all phis of the block in parallel
        blk = f.fn.blocks[f.b]
        vals = []
        i = f.i
        while i < len(blk) and blk[i]['op'] == 'phi':
            p = blk[i]
            for pb, o in p['in']:
                if pb == f.pb:
                    vals.append((p['i'], self.val(st, f.r, o)))
                    break
            else:
                raise AnalysisError('phi without incoming edge')
            i += 1
        for k, v in vals:
            f.r[k] = v
        f.i = i
        return CONT

    def i_br(self, st, f, ins):
        bs = ins['b']
        if len(bs) == 1:
            if not self.goto(st, f, bs[0]):
                return self.end(st, 'cut')
            return CONT
        c = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        if type(c) is int:
            if not self.goto(st, f, bs[0] if c & 1 else bs[1]):
                return self.end(st, 'cut')
            return CONT
        if self.on_branch:
            self.on_branch(st, f, c)
        s2 = st.fork()
        t = self.assume(st, c, True)
        e = self.assume(s2, c, False)
        both = bool(t) and bool(e)
        if not both and len(t) + len(e) == 1 and t:
            # st itself continues
            ff = self.top(st)
            if not self.goto(st, ff, bs[0]):
                return self.end(st, 'cut')
            return CONT
        out = []
        cuts = []
        for s, tgt in [(s, bs[0]) for s in t] + [(s, bs[1]) for s in e]:
            if both:
                s.forks += 1
            ff = self.top(s)
            if self.goto(s, ff, tgt):
                out.append(s)
            else:
                self.ncut = getattr(self, 'ncut', 0) + 1
                cuts.append(s)
        for s in cuts:
            s.user['cut'] = True
        if cuts:
            if not hasattr(self, 'cutpaths'):
                self.cutpaths = []
            out2 = [CutState(s) for s in cuts]
            return out + out2
        return out

    def i_switch(self, st, f, ins):
        v = self.resolve(st, self.val(st, f.r, ins['a'][0]))
        if type(v) is int:
            for c, b in ins['cs']:
                if int(c[1]) == v:
                    tgt = b
                    break
            else:
                tgt = ins['def']
            if not self.goto(st, f, tgt):
                return self.end(st, 'cut')
            return CONT
        if self.on_branch:
            self.on_branch(st, f, v)
        w = int(ins['cs'][0][0][2]) if ins['cs'] else 64
        out = []
        cur = st
        alive = True
        for c, b in ins['cs']:
            s2 = cur.fork()
            for s in self.assume_cmp(cur, 'eq', v, int(c[1]), w):
                s.forks += 1
                if self.goto(s, self.top(s), b):
                    out.append(s)
                else:
                    out.append(CutState(s))
            l = self.assume_cmp(s2, 'ne', v, int(c[1]), w)
            if not l:
                alive = False
                break
            cur = l[0]
        if alive:
            cur.forks += 1
            if self.goto(cur, self.top(cur), ins['def']):
                out.append(cur)
            else:
                out.append(CutState(cur))
        return out

    def i_unreachable(self, st, f, ins):
        return self.end(st, 'unreachable')

    def i_extractvalue(self, st, f, ins):
        v = self.val(st, f.r, ins['a'][0])
        for x in ins['x']:
            if type(v) is tuple and v[0] == 'agg':
                v = v[1][x]
            elif issym(v):
                v = (self.cons('op', ('extract', v, x), 64), 0)
            else:
                v = self.sym('undef')
        f.r[ins['i']] = v

    def i_insertvalue(self, st, f, ins):
        a = self.val(st, f.r, ins['a'][0])
        v = self.val(st, f.r, ins['a'][1])
        x = ins['x']
        l = list(a[1]) if type(a) is tuple and a[0] == 'agg' else []
        while len(l) <= x[0]:
            l.append(0)
        if len(x) == 1:
            l[x[0]] = v
        f.r[ins['i']] = ('agg', tuple(l))

    def i_ret(self, st, f, ins):
        v = self.val(st, f.r, ins['a'][0]) if ins['a'] else None
        st.frames.pop()
        if f.mark is not None:
            self.event(st, 'mark', {'tag': f.mark})
        if not st.frames:
            return self.end(st, 'ret', v)
        return self.resume_caller(st, f.ret, f.inv, v)

    def resume_caller(self, st, ret, inv, v):
        c = self.top(st)
        if ret is not None:
            c.r[ret] = v if v is not None else 0
        if inv is not None:
            if not self.goto(st, c, inv[0]):
                return self.end(st, 'cut')
        else:
            c.i += 1
        return CONT

    # ------------------------------------------------------------ calls
    def i_call(self, st, f, ins):
        callee = ins['f']
        r = f.r
        if callee[0] == 'g':
            name = self.m.aliases.get(callee[1], callee[1])
            tgt = None
        else:
            if callee[0] == 'asm':
                if 'i' in ins:
                    r[ins['i']] = self.sym('asm')
                return None
            t = self.resolve(st, self.val(st, r, callee))
            name = None
            if issym(t):
                bo = self.bases[t[0]]
                if bo.kind == 'global' and bo.info in self.m.fns:
                    name = bo.info
                elif bo.kind == 'global' and bo.info in self.m.aliases:
                    name = self.m.aliases[bo.info]
            if name is None:
                return self.indirect(st, f, ins, t)
        fn = self.m.fns.get(name)
        args = [self.val(st, r, a) for a in ins['a']]
        return self.call(st, f, ins, fn, name, args)

    def call(self, st, f, ins, fn, name, args):
        if name.startswith('llvm.'):
            return self.intrinsic(st, f, ins, name, args)
        h = BUILTIN.get(name)
        if h is not None:
            return h(self, st, f, ins, args)
        mod = self.models.get(fn.sn)
        if mod is not None:
            res = mod(self, st, f, ins, fn, args)
            if res is not NOMODEL:
                return res
        if fn.blocks and not self.opaque(fn):
            n = sum(1 for x in st.frames if x.fn is fn)
            if n >= 6 or len(st.frames) > 160:
                self.event(st, 'recursion', {'fn': fn.name, '_l': ins.get('l', 0)})
                return self.end(st, 'cut')
            inv = (ins['n'], ins['u']) if ins['op'] == 'invoke' else None
            # byval args would need a copy; treat pointer as is
            self.push(st, fn, args, ins.get('i'), inv, ins.get('l', 0))
            return CONT
        return self.opaque_call(st, f, ins, fn, args)

    def opaque_call(self, st, f, ins, fn, args, kind='call', extra=None, may_throw=None):
        d = {'name': fn.name if fn else None, 'sn': fn.sn if fn else None, 'args': [self.resolve(st, a) for a in args], '_l': ins.get('l', 0)}
        if fn and fn.cls:
            d['cls'] = fn.cls
        if fn and fn.sn in self.snap_on:
            d['snap'] = dict(st.mem)
            st.own = set()
        if extra:
            d.update(extra)
        for a in args:
            ra = self.resolve(st, a)
            self.chkfree(st, ra, ins)
            if not (fn and (fn.sn in NOESC or fn.sn.startswith('probe::'))):
                self.escape(st, a)
        sret = ins.get('sret')
        if sret:
            d['sret'] = tuple(sret)
            self.havoc_base(st, args[sret[0]], sret[1])
        ret = None
        if 'i' in ins:
            ty = ins['t']
            if type(ty) is list:
                ret = ('agg', tuple(self.sym('call', (d.get('sn'), i), t if type(t) is int else 64) for i, (o, t) in enumerate(ty[1])))
            else:
                ret = self.sym('call', (d.get('sn'), st.nev), ty if type(ty) is int else 64)
        d['ret'] = ret
        ev = self.event(st, kind, d)
        if fn and (fn.sn.startswith('std::') or fn.sn.startswith('__') or fn.sn.startswith('pthread') or fn.sn.startswith('_')):
            if fn.sn not in NOHAVOC and not fn.sn.startswith('std::exception_ptr') and not fn.sn.startswith('std::__exception_ptr'):
                for a in args:
                    ra = self.resolve(st, a)
                    if issym(ra):
                        self.havoc_base(st, ra)
        if fn and self.havoc_on(fn):
            self.havoc(st)
        if fn and self.after_call:
            self.after_call(self, st, fn, args)
        nt = ins.get('nt') or (fn is not None and fn.nt)
        thr = (not nt) and self.throwing if may_throw is None else may_throw
        nr = ins.get('nr') or (fn is not None and fn.nr)
        out = []
        if thr:
            s2 = st.fork()
            s2.forks += 1
            st.forks += 1
            self.event(s2, 'thrown', {'by': d.get('sn') or kind, 'src': ev, '_l': ins.get('l', 0)})
            s2.exc = (self.sym('exc', ev.i), None)
            res = self.unwind(s2)
            if isinstance(res, Path):
                res = [Done(res)]
            elif res is CONT:
                res = [s2]
            out = res
        if nr:
            if not out:
                return self.end(st, 'unreachable' if not thr else 'noreturn')
            return out
        # normal continuation
        ff = self.top(st)
        if ret is not None:
            ff.r[ins['i']] = ret
        if ins['op'] == 'invoke':
            if not self.goto(st, ff, ins['n']):
                return [CutState(st)] + out if out else self.end(st, 'cut')
        else:
            ff.i += 1
        if out:
            return [st] + out
        return CONT

    def finish_call(self, st, ins, v=None):
        """a modelled call returned normally with value v"""
        ff = self.top(st)
        if 'i' in ins:
            ff.r[ins['i']] = v if v is not None else self.sym('call', None)
        if ins['op'] == 'invoke':
            if not self.goto(st, ff, ins['n']):
                return self.end(st, 'cut')
        else:
            ff.i += 1
        return CONT

    def unwind(self, st):
        """start unwinding at the current instruction of the top frame"""
        first = True
        f = self.top(st)
        ins = f.fn.blocks[f.b][f.i]
        if ins['op'] == 'invoke':
            if not self.goto(st, f, ins['u']):
                return self.end(st, 'cut')
            return CONT
        return self.pop_unwind(st)

    def pop_unwind(self, st):
        while True:
            f = st.frames.pop()
            if f.fn.nt:
                st.frames.append(f)
                self.event(st, 'terminate', {'why': 'exception leaves nounwind ' + f.fn.sn})
                return self.end(st, 'terminate')
            if not st.frames:
                return self.end(st, 'unwind')
            if f.inv is not None:
                c = self.top(st)
                if not self.goto(st, c, f.inv[1]):
                    return self.end(st, 'cut')
                return CONT

    def i_landingpad(self, st, f, ins):
        exc = st.exc or (self.sym('exc'), None)
        ti = exc[1]
        sel = 0
        if ins['c']:
            if ti is not None:
                for kind, c in ins['c']:
                    cv = self.val(st, f.r, c)
                    if cv == 0:
                        sel = 1
                        break
                    if cv == ti:
                        sel = self.tid(cv)
                        break
                else:
                    sel = 0
            else:
                cs = [self.val(st, f.r, c) for _, c in ins['c']]
                if cs and cs[0] == 0:
                    sel = 1
                else:
                    sel = self.sym('selector', None, 32)
        f.r[ins['i']] = ('agg', (exc[0], sel))

    def tid(self, v):
        return self.tids.setdefault(v, len(self.tids) + 2)

    def i_resume(self, st, f, ins):
        return self.pop_unwind(st)

    def indirect(self, st, f, ins, t):
        args = [self.val(st, f.r, a) for a in ins['a']]
        if issym(t):
            bo = self.bases[t[0]]
            # virtual call: t loaded from (vptr, 8*idx)
            if bo.kind in ('load', 'undef') and bo.info and t[1] == 0:
                vb, voff, _ = bo.info
                vo = self.bases[vb]
                cid = st.user.get(('vcls', vb))
                obj = None
                if vo.kind in ('load', 'undef', 'vptr') and vo.info:
                    obj = (vo.info[0], vo.info[1])
                idx = voff // 8
                name = self.m.vslot(cid, idx) if cid else None
                k = 1 if ins.get('sret') and ins['sret'][0] == 0 else 0
                th = self.resolve(st, args[k]) if len(args) > k else None
                if cid or (obj is not None and th is not None and issym(th) and self.resolve(st, obj) == th):
                    ex = {'m': name, 'cls': cid, 'obj': th, 'slot': idx}
                    return self.vcall(st, f, ins, args, ex)
        return self.opaque_call(st, f, ins, None, args, kind='icall', extra={'fp': t})

    vmodels = {}

    def vcall(self, st, f, ins, args, ex):
        h = self.vmodels.get(ex['m'])
        if h:
            res = h(self, st, f, ins, args, ex)
            if res is not NOMODEL:
                return res
        return self.opaque_call(st, f, ins, None, args, kind='vcall', extra=ex)

    def intrinsic(self, st, f, ins, name, args):
        n = name.split('.')
        k = n[1]
        inv = ins['op'] == 'invoke'

        def fin(v=None):
            return self.finish_call(st, ins, v)
        if k in ('lifetime', 'dbg', 'experimental', 'invariant', 'stackrestore', 'var', 'donothing', 'annotation', 'prefetch'):
            return fin(0)
        if k == 'assume':
            v = self.resolve(st, args[0])
            if type(v) is int and v == 0:
                return self.end(st, 'unreachable')
            if issym(v):
                r = self.assume(st, v, True)
                if not r:
                    return self.end(st, 'unreachable')
                if len(r) == 1 and r[0] is st:
                    return fin(0)
            return fin(0)
        if k in ('memcpy', 'memmove'):
            self.chkfree(st, self.resolve(st, args[0]), ins)
            self.chkfree(st, self.resolve(st, args[1]), ins)
            self.memcpy(st, args[0], args[1], args[2])
            return fin(0)
        if k == 'memset':
            d, v, sz = self.resolve(st, args[0]), self.resolve(st, args[1]), self.resolve(st, args[2])
            if issym(d):
                if type(v) is int and type(sz) is int and sz <= 65536:
                    self.havoc_base(st, d, sz)
                    o = 0
                    while o < sz:
                        s = 8 if sz - o >= 8 else 4 if sz - o >= 4 else 1
                        self.store(st, (d[0], d[1] + o), s, int.from_bytes(bytes([v & 255]) * s, 'little'))
                        o += s
                else:
                    self.havoc_base(st, d)
            return fin(0)
        if k in ('type', 'public') and 'test' in n:
            vp = self.resolve(st, args[0])
            md = args[1]
            if issym(vp) and md and md[0] == 'm' and md[1]:
                bo = self.bases[vp[0]]
                if bo.kind in ('load', 'undef'):
                    st.user[('vcls', vp[0])] = md[1]
                    if bo.info:
                        self.addhint(st, bo.info[0], bo.info[1], md[1])
            return fin(1)
        if k == 'expect':
            return fin(args[0])
        if k == 'eh' and 'typeid' in n:
            return fin(self.tid(args[0]))
        if k == 'trap' or k == 'ubsantrap':
            return self.end(st, 'terminate')
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and len(n) > 2 and n[2] == 'with':
            a, b = self.resolve(st, args[0]), self.resolve(st, args[1])
            bits = int(n[-1][1:])
            v = self.mkop(st, k[1:], (a, b), bits)
            return fin(('agg', (v, 0)))
        if k in ('umax', 'umin', 'smax', 'smin', 'usub', 'abs', 'uadd', 'ctpop', 'fshl', 'bswap', 'ctlz', 'cttz'):
            a = [self.resolve(st, x) for x in args]
            t = ins['t']
            if k in ('umax', 'umin', 'smax', 'smin'):
                p = {'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[k]
                d = self.cmp(st, p, a[0], a[1], t)
                if d is not None:
                    return fin(a[0] if d else a[1])
            return fin((self.cons('op', (k,) + tuple(a), t if type(t) is int else 64), 0))
        if k == 'threadlocal':
            return fin(args[0])
        if k == 'objectsize':
            return fin(M64)
        if k == 'is' :
            return fin(0)
        if k in ('stacksave', 'frameaddress', 'returnaddress', 'launder', 'strip', 'ptr'):
            return fin(args[0] if args else 0)
        if k == 'coro':
            if n[2] == 'promise':
                a = self.resolve(st, args[0])
                frm = self.resolve(st, args[2])
                if issym(a):
                    return fin((a[0], a[1] + (-16 if frm == 1 else 16)))
                return fin(a)
            if n[2] in ('resume', 'destroy'):
                self.event(st, 'coro.' + n[2], {'h': self.resolve(st, args[0]), '_l': ins.get('l', 0)})
                return fin(0)
            if n[2] == 'done':
                v = self.sym('corodone', None, 1)
                self.event(st, 'coro.done', {'h': self.resolve(st, args[0]), 'ret': v, '_l': ins.get('l', 0)})
                return fin(v)
        if 'i' in ins:
            a = tuple(self.resolve(st, x) if type(x) is tuple else 0 for x in args)
            t = ins['t']
            return fin((self.cons('op', (name,) + a, t if type(t) is int else 64), 0))
        return fin(0)

    H = {}


CONT = object()
NOMODEL = object()
NOESC = {'operator delete', 'std::condition_variable::notify_one', 'std::condition_variable::notify_all'}
NOHAVOC = {'std::current_exception', 'std::rethrow_exception', 'std::terminate', 'std::_Rb_tree_increment', 'std::_Rb_tree_decrement', 'std::condition_variable::notify_one',
           'std::condition_variable::notify_all', '__dynamic_cast'}


class CutState:
    def __init__(self, st):
        self.st = st


class Done:
    def __init__(self, p):
        self.p = p


# allow run() worklist to carry finished paths
_orig_exec = Engine.exec


def _exec(self, st):
    if isinstance(st, CutState):
        return self.end(st.st, 'cut')
    if isinstance(st, Done):
        return st.p
    return _orig_exec(self, st)


Engine.exec = _exec


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def wrapoff(o, bits):
    if bits < 64:
        return o
    return sgn(o, 64)


def tsize(t):
    if type(t) is int:
        return (t + 7) // 8
    if t == 'p':
        return 8
    if type(t) is list:
        return t[0]
    if t == 'f32':
        return 4
    if t == 'f64':
        return 8
    if t == 'f80':
        return 16
    return 8


def cmpconst(p, a, b, w):
    m = (1 << w) - 1
    a &= m
    b &= m
    if p[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    q = p if p in ('eq', 'ne') else p[1:]
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]


def constfold(op, args, bits):
    a = args[0]
    b = args[1] if len(args) > 1 else 0
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return a << b if b < 128 else 0
    if op == 'lshr':
        return (a & ((1 << bits) - 1)) >> b
    if op == 'ashr':
        return sgn(a, bits) >> b
    if op == 'udiv':
        return a // b if b else None
    if op == 'urem':
        return a % b if b else None
    if op == 'sdiv':
        x, y = sgn(a, bits), sgn(b, bits)
        return None if y == 0 else int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
    if op == 'srem':
        x, y = sgn(a, bits), sgn(b, bits)
        return None if y == 0 else (abs(x) % abs(y)) * (1 if x >= 0 else -1)
    if op == 'zext' or op == 'trunc':
        return a
    return None


H = Engine.H
H['alloca'] = Engine.i_alloca
H['load'] = Engine.i_load
H['store'] = Engine.i_store
H['cmpxchg'] = Engine.i_cmpxchg
H['atomicrmw'] = Engine.i_atomicrmw
H['fence'] = Engine.i_fence
H['getelementptr'] = Engine.i_gep
for o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
    H[o] = Engine.i_bin
for o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'extractelement', 'insertelement', 'shufflevector'):
    H[o] = Engine.i_fbin
H['icmp'] = Engine.i_icmp
H['fcmp'] = Engine.i_fcmp
for o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
    H[o] = Engine.i_cast
H['select'] = Engine.i_select
H['phi'] = Engine.i_phi
H['br'] = Engine.i_br
H['switch'] = Engine.i_switch
H['unreachable'] = Engine.i_unreachable
H['extractvalue'] = Engine.i_extractvalue
H['insertvalue'] = Engine.i_insertvalue
H['ret'] = Engine.i_ret
H['call'] = Engine.i_call
H['invoke'] = Engine.i_call
H['landingpad'] = Engine.i_landingpad
H['resume'] = Engine.i_resume

BUILTIN = {}


def b_new(self, st, f, ins, args):
    v = self.sym('new', self.resolve(st, args[0]))
    st.newlist = st.newlist + (v[0],)
    self.event(st, 'new', {'obj': v, 'size': self.resolve(st, args[0]), '_l': ins.get('l', 0)})
    return self.finish_call(st, ins, v)


def b_delete(self, st, f, ins, args):
    v = self.resolve(st, args[0])
    if v == 0:
        return self.finish_call(st, ins, 0)
    if issym(v):
        if v[0] in st.freed:
            self.event(st, 'doublefree', {'obj': v, '_l': ins.get('l', 0)})
        ev = self.event(st, 'free', {'obj': v, '_l': ins.get('l', 0)})
        if v[1] == 0 or True:
            st.freed[v[0]] = ev.i
    return self.finish_call(st, ins, 0)


for n in ('_Znwm', '_ZnwmSt11align_val_t', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_tRKSt9nothrow_t'):
    BUILTIN[n] = b_new
for n in ('_ZdlPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPv', '_ZdaPvm', 'free'):
    BUILTIN[n] = b_delete


def b_throw(self, st, f, ins, args):
    self.event(st, 'throw', {'obj': self.resolve(st, args[0]), 'ti': args[1], '_l': ins.get('l', 0)})
    st.exc = (self.resolve(st, args[0]), args[1])
    return self.unwind(st)


BUILTIN['__cxa_throw'] = b_throw


def b_allocexc(self, st, f, ins, args):
    return self.finish_call(st, ins, self.sym('new', 'exc'))


BUILTIN['__cxa_allocate_exception'] = b_allocexc


def b_begin_catch(self, st, f, ins, args):
    v = self.resolve(st, args[0])
    st.caught = st.caught + ((v, st.exc),)
    self.event(st, 'catch', {'obj': v, '_l': ins.get('l', 0)})
    return self.finish_call(st, ins, v)


def b_end_catch(self, st, f, ins, args):
    st.caught = st.caught[:-1]
    return self.finish_call(st, ins, 0)


def b_rethrow(self, st, f, ins, args):
    self.event(st, 'rethrow', {'_l': ins.get('l', 0)})
    if st.caught and st.caught[-1][1]:
        st.exc = st.caught[-1][1]
    else:
        st.exc = (self.sym('exc'), None)
    return self.unwind(st)


BUILTIN['__cxa_begin_catch'] = b_begin_catch
BUILTIN['__cxa_end_catch'] = b_end_catch
BUILTIN['__cxa_rethrow'] = b_rethrow


def b_terminate(self, st, f, ins, args):
    self.event(st, 'terminate', {'why': 'std::terminate', '_l': ins.get('l', 0)})
    return self.end(st, 'terminate')


for n in ('_ZSt9terminatev', 'abort', '__clang_call_terminate', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_length_errorPKc', '__cxa_pure_virtual'):
    BUILTIN[n] = b_terminate


def b_free_exc(self, st, f, ins, args):
    return self.finish_call(st, ins, 0)


for n in ('__cxa_free_exception', '__cxa_atexit'):
    BUILTIN[n] = b_free_exc


def b_guard_acquire(self, st, f, ins, args):
    return self.finish_call(st, ins, 1)


BUILTIN['__cxa_guard_acquire'] = b_guard_acquire
BUILTIN['__cxa_guard_release'] = b_free_exc
BUILTIN['__cxa_guard_abort'] = b_free_exc


def b_memcmp(self, st, f, ins, args):
    return self.finish_call(st, ins, (self.cons('op', ('memcmp',) + tuple(self.resolve(st, a) for a in args) + (st.nev,), 32), 0))


def b_memmove(self, st, f, ins, args):
    self.memcpy(st, args[0], args[1], args[2])
    return self.finish_call(st, ins, args[0])


BUILTIN['memmove'] = b_memmove
BUILTIN['memcpy'] = b_memmove
