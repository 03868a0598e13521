"""Reader runs against a writer's stream, final-object comparison, free reader runs."""
from .wire import *
from . import wire as W

class Reader(Wire):
    """mode 'mirror': reads pop the writer's stream; values are the writer's"""
    def __init__(self, F, level, forall=(), params_of=None):
        Wire.__init__(self, F, level, 'mirror')
        self.forall = list(forall); self.params_of = params_of or (lambda t: ())
        self.paramobl = []
    # -------- decisions
    def decide(self, st, c):
        if c.op == 'bin' and c.a[0] == 'Eq' and isint(c.a[2]):
            x = c.a[1]
            if x.op == 'discr' and x.a[1]:
                v = c.a[2].a[0]
                if all(st.pc.get(BIN('Eq', x, INT(k, x.ty), 'bool')) is False for k in x.a[1] if k != v): return True
        if c.op == 'bin' and c.a[0] == 'Eq' and c.ty == 'bool':
            a, b = self.canon(st, c.a[1]), self.canon(st, c.a[2])
            if a is b: return True
            if (a, b) != (c.a[1], c.a[2]):
                r = BIN('Eq', a, b, 'bool')
                if r.op == 'int': return bool(r.a[0])
                return st.pc.get(r)
        if c.op == 'bin' and c.a[0] == 'Le':
            a, b = self.canon(st, c.a[1]), self.canon(st, c.a[2])
            if (a, b) != (c.a[1], c.a[2]):
                r = BIN('Le', a, b, 'bool')
                if r is not c: return self.I.decide(st, r)
            # x <= k follows from x <= j, j <= k
            if isint(c.a[2]) :
                for f, v in list(st.pc.items()):
                    if v is True and isinstance(f, N) and f.op == 'bin' and f.a[0] == 'Le' and f.a[1] is c.a[1] and isint(f.a[2]) and f.a[2].a[0] <= c.a[2].a[0]: return True
        if c.op == 'app' and c.a[0] == 'eq':
            x, y = self.canon(st, c.a[1]), self.canon(st, c.a[2])
            if x is y: return True
            r = mk('app', 'eq', *sorted((x, y), key=lambda n: n.id), ty='bool')
            return st.pc.get(r)
        if c.op == 'cast' and c.ty == 'bool': return None
        return None
    def canon(self, st, x, depth=0):
        """drop round-trip casts that the facts show to be lossless; resolve decided gates"""
        if depth > 12: return x
        k = (x, len(st.pc))
        while x.op == 'ite':
            d = self.I.decide(st, x.a[0])
            if d is None: return x
            x = x.a[1] if d else x.a[2]
        if x.op == 'cast' and x.ty in WIDTH and x.a[0].ty in WIDTH:
            y = self.canon(st, x.a[0], depth + 1)
            if y is not x.a[0]: x = CAST(y, y.ty, x.ty)
            if x.op != 'cast': return x
            y = x.a[0]
            if y.op == 'cast' and y.a[0].ty == x.ty and y.a[0].ty in WIDTH:
                z = y.a[0]
                lo, hi = T.rng(y.ty); zl, zh = T.rng(z.ty)
                if zl < 0 and lo == 0 and WIDTH[y.ty] >= WIDTH[z.ty]: return z     # two's complement wrap-around
                if WIDTH[y.ty] >= WIDTH[z.ty]: return z
                ok = True
                if hi < zh and self.I.decide(st, BIN('Le', z, INT(hi, z.ty), 'bool')) is not True: ok = False
                if lo > zl and self.I.decide(st, BIN('Le', INT(lo, z.ty), z, 'bool')) is not True: ok = False
                if ok: return z
        return x
    def same(self, st, a, b):
        if a is b: return True
        if not isinstance(a, N) or not isinstance(b, N): return a == b
        if a.op == 'deref_of' or b.op == 'deref_of': return self.same(st, whole(a), whole(b))
        return self.eqv(st, a, b, [400])
    # -------- popping
    def popterm(self, st, s, kind, where):
        while True:
            if s.op == 'sfact':
                self.learn(st, s.a[0]); s = s.a[1]; continue
            if s.op == 'ite':
                d = self.I.decide(st, s.a[0])
                if d is not None: s = s.a[1] if d else s.a[2]; continue
                c = s.a[0]
                s1 = State(dict(st.env), [], dict(st.pc)); self.I.assume(s1, c, True)
                s2 = State(dict(st.env), [], dict(st.pc)); self.I.assume(s2, c, False)
                v1, t1, k1 = self.popterm(s1, s.a[1], kind, where)
                v2, t2, k2 = self.popterm(s2, s.a[2], kind, where)
                return ITE(c, v1, v2), ITE(c, t1, t2), (k1 if k1 is k2 else ITE(c, k1, k2))
            k = st.env.get(XK)
            part = self.partial(st, s, k, kind)
            if part is not None:
                s, k = part; st.env[XK] = k = INT(0, 'usize'); continue
            if s.op == 'sloop' and kind[0] == 'slice':
                lam = s.a[1]; o = lam.a[1]
                if o.op == 'sop' and o.a[2].op == 'sback' and o.a[0] is mk('kind', 'u', INT(8, 'u64')) and self.same(st, tocast(s.a[0], 'usize'), kind[1]):
                    return mk('build', mk('vecnew'), tocast(s.a[0], 'usize'), mk('lam', lam.a[0], tocast(o.a[1], 'u8'))), s.a[2], k
            if s.op == 'sloop':
                # a loop whose trip count is not symbolic on the reader side: only zero iterations are acceptable
                raise Mismatch('%s reads %s where the encoder loops %s times' % (where, kshow(kind), show(s.a[0], 4)))
            if s.op == 'sbody':
                lam = s.a[1]
                s = subst_stream(lam.a[1], {lam.a[0]: tocast(k, lam.a[0].ty)})
                continue
            if s.op == 'sback': raise Mismatch('%s reads %s, the encoder writes nothing more in this iteration' % (where, kshow(kind)))
            if s.op == 'snil': raise Mismatch('%s reads %s, the encoder wrote nothing there' % (where, kshow(kind)))
            if s.op != 'sop': raise Mismatch('%s reads %s from %s' % (where, kshow(kind), s.op))
            wk = s.a[0]
            if kind[0] == 'elem1':
                if wk.a[0] != 'elems' or not all(self.same(st, x, y) for x, y in zip(wk.a[1:], kind[1:])):
                    raise Mismatch('%s reads an element of %s, the encoder wrote %s' % (where, kshow(kind[1:]), kshow(wk.a)))
                return PROJ(s.a[1], ('i', k)), s, BIN('Add', k, INT(1, 'usize'), 'usize')
            if wk.a[0] != kind[0] or len(wk.a) != len(kind) or not all(self.same(st, x, y) for x, y in zip(wk.a[1:], kind[1:])):
                r = self.bridge(st, s, wk, kind)
                if r is not None: return r
                raise Mismatch('%s reads %s, the encoder wrote %s' % (where, kshow(kind), kshow(wk.a)))
            return s.a[1], s.a[2], k
    def bridge(self, st, s, wk, kind): return None
    def partial(self, st, s, k, kind):
        """a partly consumed element run or loop that is complete -> the stream after it"""
        if k is None or isint(k) and k.a[0] == 0:
            if not (s.op == 'sbody' and k is not None): 
                # zero iterations
                if s.op == 'sop' and s.a[0].a[0] == 'elems' and kind is not None and kind[0] not in ('elems', 'elem1') and self.I.decide(st, BIN('Eq', LEN(s.a[1]), INT(0, 'usize'), 'bool')) is True: return s.a[2], k
                if s.op == 'sloop' and self.I.decide(st, BIN('Eq', s.a[0], INT(0, s.a[0].ty), 'bool')) is True: return s.a[2], k
                return None
        if s.op == 'sop' and s.a[0].a[0] == 'elems':
            n, tail = LEN(s.a[1]), s.a[2]
            if kind is not None and kind[0] == 'elem1' and not self.same(st, k, n): return None
        elif s.op == 'sbody': n, tail = s.a[0], s.a[2]
        else: return None
        if self.same(st, k, n): return tail, k
        if s.op == 'sbody' and self.inloop: return None
        raise Mismatch('the decoder consumes %s of the %s elements the encoder wrote' % (show(k, 4), show(n, 4)))
    inloop = 0
    def learn(self, st, f):
        if f.op == 'forall': self.forall.append(f)
        else: self.I.assume(st, f, True)
    def head(self, st):
        """the stream's first item, decided gates resolved"""
        s = st.env[X]
        while True:
            if s.op == 'sfact': self.learn(st, s.a[0]); s = s.a[1]; continue
            if s.op == 'ite':
                d = self.I.decide(st, s.a[0])
                if d is not None: s = s.a[1] if d else s.a[2]; continue
            k = st.env.get(XK)
            try: p = self.partial(st, s, k, None)
            except Mismatch: break
            if p is not None: s = st.env[X] = p[0]; st.env[XK] = INT(0, 'usize'); continue
            break
        return s
    def where(self, c): return '%s line %s' % (c.fr.body.path, c.line)
    def get(self, c, kind, t):
        self.nops += 1
        st = c.st
        v, tail, k = self.popterm(st, st.env[X], kind, self.where(c))
        st.env[X] = tail; st.env[XK] = k
        if t in WIDTH: 
            if v.ty in WIDTH and v.ty != t: v = CAST(v, v.ty, t)
        c.op('get', mk('kind', *kind), v)
        return OK(v)
    def getobj(self, c, kind, Ts):
        self.nops += 1
        st = c.st
        pre = c.load(0)
        v, tail, k = self.popterm(st, st.env[X], kind, self.where(c))
        st.env[X] = tail; st.env[XK] = k
        self.checkparams(c, Ts, pre, v)
        c.store(0, v)
        return OK(UNIT())
    def checkparams(self, c, Ts, pre, v):
        if Ts is None: return
        for f in self.params_of(Ts):
            a, b = PROJ(pre, ('f', None, f)), PROJ(v, ('f', None, f))
            c.op('param', c.deep(a), b, res=(self.where(c), Ts, f))
    def getelems(self, c, D, offs):
        self.nops += 1
        st = c.st
        v, tail, k = self.popterm(st, st.env[X], ('elems', D, offs), self.where(c))
        n = c.val(3)
        if not self.same(st, n, LEN(v)): raise Mismatch('%s reads %s elements, the encoder wrote %s' % (self.where(c), show(n, 4), show(LEN(v), 4)))
        Ts = c.targs[0] if c.targs else None
        if Ts is not None and Ts[0] == 'adt' and self.params_of(Ts):
            self.bad('paramarray', '%s: elements of parameterised type %s are decoded without parameters' % (self.where(c), ty_str(Ts)))
        st.env[X] = tail; st.env[XK] = k
        c.store(2, v)
        return OK(UNIT())
    def getone(self, c, D, offs):
        self.nops += 1
        st = c.st
        pre = c.load(3)
        k0 = st.env.get(XK)
        h = self.head(st)
        if h.op == 'sop' and h.a[0].a[0] == 'elems':
            k = st.env.get(XK)
            for f in self.forall:
                if f.a[0] is LEN(h.a[1]) or self.same(st, f.a[0], LEN(h.a[1])):
                    lam = f.a[1]
                    self.I.assume(st, subst(lam.a[1], {lam.a[0]: k}), True)
        k0 = st.env.get(XK)
        v, tail, k = self.popterm(st, st.env[X], ('elem1', D, offs), self.where(c))
        st.env[X] = tail; st.env[XK] = k
        Ts = c.targs[0] if c.targs else None
        if Ts is not None and Ts[0] == 'adt': self.checkparams(c, Ts, pre, v)
        idx = c.val(4)
        c.op('same', tocast(idx, 'usize'), k0)
        ctx = c.deep(c.load(2))
        if c.I.decide(st, arrfield(c.load(0), 1)) is not False:
            tr = whole(c.deep(arrfield(c.load(0), 0)))
            if ctx is not mk('app', 'actx', tr): self.bad('elemctx', '%s: elements are unpacked with context %s instead of one created by their array trait' % (self.where(c), show(ctx, 4)))
        c.store(3, v)
        return OK(UNIT())
    # -------- loops
    def back(self, st):
        """end of one iteration of a summarised loop"""
        s = st.env.get(X)
        if s is None: return
        h = s
        while h.op in ('sfact', 'ite'):
            if h.op == 'sfact': self.learn(st, h.a[0]); h = h.a[1]; continue
            d = self.I.decide(st, h.a[0])
            if d is None: break
            h = h.a[1] if d else h.a[2]
        if h.op == 'sback':
            st.env[X] = self.bodies[-1]; st.env[XK] = BIN('Add', st.env[XK], INT(1, 'usize'), 'usize')
    # -------- comparison
    def eqv(self, st, a, b, budget):
        budget[0] -= 1
        if budget[0] < 0: return False
        a, b = whole(a), whole(b)
        a, b = self.canon(st, a), self.canon(st, b)
        if a is b: return True
        if a.op == 'undef' or b.op == 'undef': return False
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                c = x.a[0]
                # split on the innermost undecided gate
                while c.op == 'ite': 
                    d = self.I.decide(st, c.a[0])
                    if d is None: c = c.a[0]
                    else: c = c.a[1] if d else c.a[2]
                while c.op == 'not': c = c.a[0]
                if c.op == 'int' or self.I.decide(st, c) is not None: 
                    d = self.I.decide(st, x.a[0])
                    if d is None: return False
                    return self.eqv(st, x.a[1] if d else x.a[2], y, budget)
                s1 = State(st.env, [], dict(st.pc)); self.I.assume(s1, c, True)
                s2 = State(st.env, [], dict(st.pc)); self.I.assume(s2, c, False)
                return self.eqv(s1, a, b, budget) and self.eqv(s2, a, b, budget)
        if a.op in ('bin',) and b.op == 'bin' and a.a[0] == b.a[0]:
            return self.eqv(st, a.a[1], b.a[1], budget) and self.eqv(st, a.a[2], b.a[2], budget)
        if a.ty in WIDTH and b.ty in WIDTH:
            for x, y in ((a, b), (b, a)):
                if isint(y) and self.I.decide(st, BIN('Eq', x, y, 'bool')) is True: return True
            if st.pc.get(BIN('Eq', a, b, 'bool')) is True: return True
            # equality facts used as rewrite rules
            for f, v in list(st.pc.items()):
                if v is True and isinstance(f, N) and f.op == 'bin' and f.a[0] == 'Eq' and f.a[1].ty == a.ty:
                    p, q = self.canon(st, f.a[1]) if f.a[1].op != 'ite' else f.a[1], self.canon(st, f.a[2])
                    if (p is a and q is b) or (p is b and q is a): return True
        if self.I.decide(st, mk('app', 'eq', *sorted((a, b), key=lambda n: n.id), ty='bool')) is True and not (a.op == 'app' and a.a[0] == 'eq'): return True
        if a.op in ('cast',) and b.op == 'cast' and a.ty == b.ty and a.a[0].ty == b.a[0].ty: return self.eqv(st, a.a[0], b.a[0], budget)
        for x, y in ((a, b), (b, a)):
            if x.op == 'adt':
                if y.op == 'adt':
                    return x.a[:2] == y.a[:2] and len(x.a) == len(y.a) and all(self.eqv(st, p, q, budget) for p, q in zip(x.a[2:], y.a[2:]))
                path, var = x.a[0], x.a[1]
                ad = self.F.adts.get(path)
                if path in (OPTION, RESULT): kind = 'enum'; dv = var; two = (0, 1)
                elif ad is None: return False
                else:
                    kind = ad['kind']; two = tuple(int(v['discr']) for v in ad['variants']); dv = two[var] if kind == 'enum' else 0
                if kind == 'enum':
                    dn = mk('discr', y, two, ty='i128')
                    if self.I.decide(st, BIN('Eq', dn, INT(dv, 'i128'), 'bool')) is not True: return False
                    return all(self.eqv(st, f, PROJ(y, ('f', var, i)), budget) for i, f in enumerate(x.a[2:]))
                nf = len(ad['variants'][0]['fields'])
                return nf == len(x.a) - 2 and all(self.eqv(st, f, PROJ(y, ('f', None, i)), budget) for i, f in enumerate(x.a[2:]))
            if x.op == 'tuple':
                return all(self.eqv(st, f, PROJ(y, ('f', None, i)), budget) for i, f in enumerate(x.a))
            if x.op == 'with' and y.op != 'with':
                return self.eqv(st, x.a[0], y, budget) and all(self.eqv(st, v, PROJ(y, k), budget) for k, v in x.a[1])
            if x.op == 'build':
                if x.a[0].op != 'vecnew' and not self.iszero(st, LEN(x.a[0])): continue
                if not self.eqv(st, x.a[1], LEN(y), budget): return False
                j = mk('sym', 'j#%d' % budget[0], ty='usize')
                lam = x.a[2]
                return self.eqv(st, subst(lam.a[1], {lam.a[0]: tocast(j, lam.a[0].ty)}), PROJ(y, ('i', j)), budget)
            if x.op == 'app' and x.a[0] == 'utf8' and y.op != 'app': return self.eqv(st, x.a[1], y, budget)
            if x.op == 'vecnew' and self.iszero(st, LEN(y)): return True
            if x.op in ('push', 'arr') and y.op not in ('push', 'arr', 'build'):
                n = LEN(x)
                if not (isint(n) and self.I.decide(st, BIN('Eq', LEN(y), n, 'bool')) is True): continue
                if all(self.eqv(st, PROJ(x, ('i', INT(j, 'usize'))), PROJ(y, ('i', INT(j, 'usize'))), budget) for j in range(n.a[0])): return True
            if x.op == 'arr' and not x.a and self.iszero(st, LEN(y)): return True
            if x.op == 'str' and x.a[0] == '' and self.iszero(st, LEN(y)): return True
        if a.op == b.op and a.op in ('app', 'fld', 'len', 'discr', 'build', 'not', 'un', 'filled', 'push', 'with', 'subslice', 'adesc', 'deref') and len(a.a) == len(b.a):
            return all(self.arg_eq(st, p, q, budget) for p, q in zip(a.a, b.a))
        return False
    def arg_eq(self, st, p, q, budget):
        if isinstance(p, N) and isinstance(q, N): return self.eqv(st, p, q, budget)
        if isinstance(p, tuple) and isinstance(q, tuple): return len(p) == len(q) and all(self.arg_eq(st, x, y, budget) for x, y in zip(p, q))
        return p == q
    def iszero(self, st, n): return self.I.decide(st, BIN('Eq', n, INT(0, 'usize'), 'bool')) is True

def kshow(k):
    return ' '.join(show(x, 5) if isinstance(x, N) else ty_str(x) if isinstance(x, tuple) else str(x) for x in k)

class MInterp(Interp):
    """interpreter with the replay hooks in loop summaries"""
    rd = None
    def loop(self, fr, h, st, stops, cut):
        outs = Interp.loop(self, fr, h, st, stops, cut)
        # an element run the loop consumed completely is left behind while its count is known on this path
        if self.rd is not None:
            for k, s in outs.items():
                if k != 'BACK' and X in s.env and s.env.get(XK) is not None: self.rd.head(s)
        return outs
    def summarise(self, fr, h, st, stops, E):
        rd = self.rd
        if rd is None: return Interp.summarise(self, fr, h, st, stops, E)
        s = rd.head(st)
        if s.op == 'sloop':
            sb = mk('sbody', s.a[0], s.a[1], s.a[2])
            st.env[X] = sb; st.env[XK] = INT(0, 'usize')
            rd.bodies.append(sb); rd.inloop += 1
            try: return Interp.summarise(self, fr, h, st, stops, E)
            finally: rd.bodies.pop(); rd.inloop -= 1
        st.env[X] = s
        return Interp.summarise(self, fr, h, st, stops, E)
    def on_back(self, st):
        if self.rd is not None and self.rd.bodies: self.rd.back(st)

class Free(Wire):
    """free reader run: every read yields an unconstrained value"""
    growops = True
    def __init__(self, F, level):
        Wire.__init__(self, F, level, 'free'); self.n = 0; self.kinds = {}
    def sym(self, t):
        self.n += 1
        return SYM('in%d:%s' % (self.n, t), t)
    def ranges(self, I, st, x, depth):
        """interval of a value taken from the wire"""
        k = self.kinds.get(x)
        if k is None: return None
        if k[0] in ('u', 'i') and isinstance(k[1], N):
            from .ranges import interval
            w = interval(I, st, k[1])
            if w is None or w[1] > 64: return None
            n = w[1]
            return (0, (1 << n) - 1) if k[0] == 'u' else (-(1 << max(n - 1, 0)), (1 << max(n - 1, 0)) - 1)
        return None
    def raw(self, c, p):
        if p == RD + 'remaining':
            v = self.sym('u64'); self.kinds[v] = ('remaining',); return v
        return Wire.raw(self, c, p)
    def get(self, c, kind, t):
        self.nops += 1
        if t is None and kind[0] == 'ctx': t = next((x[1] for x in self.ctxtypes if x[0] == 'int'), None)
        v = self.sym(t)
        self.kinds[v] = kind
        c.op('get', mk('kind', *kind), v)
        return OK(v)
    def getobj(self, c, kind, Ts):
        pre = c.load(0)
        v = self.sym(None); c.op('getobj', mk('kind', *kind), v, c.deep(pre))
        c.store(0, v)
        return OK(UNIT())
    def getelems(self, c, D, offs):
        # array_length elements (R01)
        n = c.val(3)
        v = mk('nelems', self.sym(None), n)
        c.store(2, v); c.op('getelems', D, v)
        return OK(UNIT())
    def getone(self, c, D, offs):
        v = self.sym(None); c.op('getone', D, v, c.deep(c.load(3))); c.store(3, v); return OK(UNIT())
