"""Typestate automata run over the event traces of abstract paths."""
import re
from engine import issym, M64

CTOR = {'probe::W::W': 'W', 'probe::V::V': 'V', 'probe::Er::Er': 'Er', 'probe::Fn::Fn': 'Fn', 'probe::Gd::Gd': 'Gd'}
DTOR = {'probe::W::~W': 'W', 'probe::V::~V': 'V', 'probe::Er::~Er': 'Er', 'probe::Fn::~Fn': 'Fn', 'probe::Gd::~Gd': 'Gd'}
RESULT = ('probe::use', 'probe::make')   # client functions that return a V
ASSIGN = {'probe::W::operator=': 'W', 'probe::V::operator=': 'V', 'probe::Er::operator=': 'Er'}


class Objs:
    """construct / move / copy / call / destroy automaton of every client object on one path"""

    def __init__(self, p, init=None):
        self.p = p
        self.st = {}      # addr -> (state, token)
        self.bad = []     # (msg, ev)
        self.unknown = [] # regions returned by opaque calls
        self.calls = []   # (ev, functor addr, functor token, [(arg addr, token)])
        self.destroyed = []
        self.constructed = []
        self.undo = {}
        self.freed = set()
        if init:
            self.st.update(init)
        for e in p.ev:
            self.step(e)

    def a(self, v):
        v = self.p.res(v)
        return v if issym(v) else None

    def get(self, addr):
        r = self.st.get(addr)
        if r:
            return r
        k = self.p.eng.bases[addr[0]]
        if k.kind in ('alloca', 'new') and k.info != 'sret':
            for b, o, s in self.unknown:
                if b == addr[0] and o <= addr[1] < o + s:
                    return ('unk', ('init', addr))
            return ('raw', None)
        return ('unk', ('init', addr))

    def name(self, addr):
        l = self.p.loc(addr)
        return '%s%s' % (self.p.fmt(addr), '(%s)' % l[0] if l else '')

    def src(self, addr, e, what):
        s, t = self.get(addr)
        if s in ('raw', 'dead'):
            self.bad.append(('%s reads %s which is %s' % (what, self.name(addr), 'not constructed' if s == 'raw' else 'already destroyed'), e))
        if s == 'moved':
            self.bad.append(('%s reads moved-from %s' % (what, self.name(addr)), e))
        return t

    def construct(self, addr, tok, e):
        s, t = self.get(addr)
        if s in ('live', 'moved'):
            self.bad.append(('constructs over live object %s' % self.name(addr), e))
        self.st[addr] = ('live', tok)
        self.constructed.append((addr, tok, e))

    def step(self, e):
        if e.k == 'call' and e.sn:
            sn = e.sn
            args = [self.a(x) for x in e.args]
            if sn in CTOR:
                dn = self.p.eng.m.fns[e.name].dn
                if len(args) > 1 and args[1] and (dn.endswith('&&)') or dn.endswith('const&)')):
                    t = self.src(args[1], e, 'construction')
                    self.construct(args[0], t, e)
                    if dn.endswith('&&)'):
                        self.st[args[1]] = ('moved', t)
                else:
                    self.construct(args[0], ('val', e.i), e)
            elif sn in DTOR:
                s, t = self.get(args[0])
                if s in ('raw', 'dead'):
                    self.bad.append(('destroys %s which is %s' % (self.name(args[0]), 'not constructed' if s == 'raw' else 'already destroyed'), e))
                self.st[args[0]] = ('dead', t)
                self.destroyed.append((args[0], t, e))
            elif sn in ASSIGN:
                dn = self.p.eng.m.fns[e.name].dn
                t = self.src(args[1], e, 'assignment')
                s, _ = self.get(args[0])
                if s in ('raw', 'dead'):
                    self.bad.append(('assigns to %s object %s' % ('unconstructed' if s == 'raw' else 'destroyed', self.name(args[0])), e))
                self.st[args[0]] = ('live', t)
                if dn.endswith('&&)'):
                    self.st[args[1]] = ('moved', t)
            elif sn == 'probe::Fn::operator()':
                k = 1 if e.sret and e.sret[0] == 0 else 0
                fa = args[k]
                ft = self.src(fa, e, 'invocation') if fa else None
                params = []
                for x in args[k + 1:]:
                    if x is None:
                        params.append((None, None))
                        continue
                    params.append((x, self.get(x)[1] if x in self.st else ('init', x)))
                    if x in self.st:
                        self.src(x, e, 'invocation')
                self.calls.append((e, fa, ft, params))
                if k:
                    ra = args[0]
                    if self.returns_plain(e):
                        self.construct(ra, ('result', e.i), e)
                        self.undo[e.i] = ra
                    elif ra:
                        self.unknown.append((ra[0], ra[1], e.sret[1]))
            elif sn in RESULT and e.sret and args[e.sret[0]]:
                for x in args[1:]:
                    if x in self.st:
                        self.src(x, e, 'use')
                ra = args[e.sret[0]]
                self.construct(ra, ('result', e.i), e)
                self.undo[e.i] = ra
            elif e.sret and args and args[e.sret[0]]:
                ra = args[e.sret[0]]
                self.unknown.append((ra[0], ra[1], e.sret[1]))
        elif e.k == 'vcall':
            if e.sret:
                ra = self.a(e.args[e.sret[0]])
                if ra:
                    self.unknown.append((ra[0], ra[1], e.sret[1]))
        elif e.k == 'thrown':
            src = e.src
            if src is not None and src.i in self.undo:
                a = self.undo[src.i]
                self.st[a] = ('raw', None)
        elif e.k == 'free':
            b = self.a(e.obj)
            if b:
                for ad, (s, t) in list(self.st.items()):
                    if ad[0] == b[0] and s in ('live', 'moved'):
                        self.bad.append(('memory released while %s is still alive' % self.name(ad), e))
                        self.st[ad] = ('dead', t)
                self.freed.add(b[0])

    def returns_plain(self, e):
        pt = self.p.eng.m.fns[e.name].pt
        if pt:
            return pt[0] in ('_ZTSN5probe1VE', '_ZTSN5probe2ErE')
        dn = self.p.eng.m.fns[e.name].dn
        return bool(re.match(r'probe::Fn<probe::(V|Er)[,>]', dn))

    def finish(self, keep=()):
        """leak check at a normal or exceptional exit"""
        if self.p.end in ('ret', 'unwind'):
            for ad, (s, t) in self.st.items():
                k = self.p.eng.bases[ad[0]]
                if s in ('live', 'moved') and k.kind == 'alloca' and k.info != 'sret' and ad[0] not in keep:
                    self.bad.append(('local client object %s is never destroyed' % self.name(ad), None))
        return self.bad


# ---------------------------------------------------------------- hand-off discipline

def handoffs(p, shared=lambda b: False, frame=None):
    """(event, object base, why) touched after the path gave the object away"""
    rel = {}
    bad = []
    bases = p.eng.bases

    def b(v):
        v = p.res(v)
        return v[0] if issym(v) else None

    def touch(v, e, what):
        x = b(v)
        if x is not None and x in rel:
            bad.append((e, x, '%s of %s after %s' % (what, p.fmt((x, 0)), rel[x])))
            rel.pop(x)

    def give(v, why):
        x = b(v)
        if x is not None and bases[x].kind not in ('alloca', 'global', 'fn') and not shared(x):
            rel[x] = why
    for e in p.ev:
        if e.k == 'phase':
            # the outside world hands the objects back
            for x in [x for x, w in rel.items() if w not in ('DecRef', '~del')]:
                rel.pop(x)
        elif e.k in ('ld', 'st', 'ald', 'ast', 'aload', 'astore'):
            touch(e.addr, e, 'access')
        elif e.k == 'cas':
            touch(e.addr, e, 'access')
            l = p.loc(e.addr)
            if e.ok and l and l[0] == '_callback':
                d = p.res(e.des)
                if issym(d):
                    give(e.des, 'it was published as a callback')
                    give(e.addr, 'its callback was published')
        elif e.k == 'rmw':
            touch(e.addr, e, 'access')
            l = p.loc(e.addr)
            old = p.res(e.old)
            if e.rmw == 'xchg' and l and l[0] == '_callback' and p.res(e.val) == M64 and not (issym(old) and bases[old[0]].kind == 'global'):
                give(e.addr, 'its result was published')
        elif e.k == 'vcall':
            if e.m == 'Here' or e.m == 'Next':
                touch(e.obj, e, 'use')
                give(e.obj, 'it was run as a callback')
                k = len(e.args) - 1
                give(e.args[k], 'it was consumed by its callback')
            else:
                touch(e.obj, e, 'use (%s)' % e.m)
                if e.m == 'Submit':
                    give(e.args[1], 'it was submitted')
                elif e.m in ('DecRef', 'Call', 'Drop', '~del'):
                    give(e.obj, e.m)
        elif e.k == 'call':
            for v in e.args:
                touch(v, e, 'use by %s' % (e.sn or 'call'))
    return bad
