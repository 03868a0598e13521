"""What generated code must do, computed from the schemas by an independent front end: values of schema expressions over the
fields of a symbolic object, and the wire layout of every type."""
import ast, math
from .genrun import *
from .replay import kshow
from . import schema as S
from . import ranges

class Unsupported(Exception): pass

# ------------------------------------------------------------------ mathematical integers
class Num:
    """normal form of integer terms: polynomials over atoms, machine casts dropped where they preserve the value"""
    def __init__(self): self.memo = {}; self.cmemo = {}
    # polynomials are dicts monomial -> coefficient; a monomial is a tuple of atoms sorted by id
    def node(self, p): return mk('mpoly', tuple(sorted(((m, c) for m, c in p.items()), key=lambda x: [a.id for a in x[0]])))
    def unnode(self, n): return dict(n.a[0])
    def const(self, c): return {(): c} if c else {}
    def atom(self, a): return {(a,): 1}
    def isconst(self, p): return all(m == () for m in p)
    def cval(self, p): return p.get((), 0)
    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            r[m] = r.get(m, 0) + s * c
            if r[m] == 0: del r[m]
        return r
    def mul(self, p, q):
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n, key=lambda a: a.id)); r[k] = r.get(k, 0) + c * d
                if r[k] == 0: del r[k]
        return r
    def op(self, o, p, q):
        if o == '+': return self.add(p, q)
        if o == '-': return self.add(p, q, -1)
        if o == '*': return self.mul(p, q)
        if self.isconst(p) and self.isconst(q):
            a, b = self.cval(p), self.cval(q)
            if o == '/' and b: return self.const(abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
            if o == '%' and b: return self.const(abs(a) % abs(b) * (1 if a >= 0 else -1))
            if o == '&': return self.const(a & b)
            if o == '|': return self.const(a | b)
            if o == '^': return self.const(a ^ b)
            if o == '<<' and 0 <= b < 128: return self.const(a << b)
            if o == '>>' and 0 <= b < 128: return self.const(a >> b)
        if o == '<<' and self.isconst(q) and 0 <= self.cval(q) < 128: return self.mul(p, self.const(1 << self.cval(q)))
        if o == '>>' and self.isconst(q) and self.cval(q) == 0: return p
        if o == '/' and self.isconst(q) and self.cval(q) == 1: return p
        if o in '&|^':
            xs = []
            for x in (p, q):
                n = self.node(x)
                if len(x) == 1 and list(x.values()) == [1] and len(list(x)[0]) == 1 and list(x)[0][0].op == 'mbit' and list(x)[0][0].a[0] == o: xs += list(list(x)[0][0].a[1])
                else: xs.append(n)
            cs = [x for x in xs if self.isconst(self.unnode(x))]; rest = sorted(set(x for x in xs if x not in cs) if o != '^' else [x for x in xs if x not in cs], key=lambda n: n.id)
            if cs:
                v = self.cval(self.unnode(cs[0]))
                for x in cs[1:]: w = self.cval(self.unnode(x)); v = v & w if o == '&' else v | w if o == '|' else v ^ w
                if o == '&' and v == 0: return {}
                if not (o in '|^' and v == 0 or o == '&' and v == -1): rest.append(self.node(self.const(v)))
            if len(rest) == 1: return self.unnode(rest[0])
            return self.atom(mk('mbit', o, tuple(rest)))
        return self.atom(mk('mop', o, self.node(p), self.node(q)))
    def neg(self, p): return self.mul(p, self.const(-1))
    def ite(self, c, p, q):
        if c.op == 'int': return p if c.a[0] else q
        if p == q: return p
        if c.op == 'not': return self.ite(c.a[0], q, p)
        return self.atom(mk('mite', c, self.node(p), self.node(q)))
    # ---- ranges
    def arange(self, a):
        if a.op == 'mtrunc': return T.rng(a.a[0])
        if a.op == 'len': return (0, (1 << 31) - 1)      # what a length prefix can express
        if a.op == 'discr' and a.a[1]: return (min(a.a[1]), max(a.a[1]))
        if a.op == 'mite':
            x, y = self.range(self.unnode(a.a[1])), self.range(self.unnode(a.a[2]))
            return None if x is None or y is None else (min(x[0], y[0]), max(x[1], y[1]))
        if a.op == 'mbit':
            r = None
            for n in a.a[1]:
                x = self.range(self.unnode(n))
                if a.a[0] == '&':
                    if x is not None and x[0] >= 0: r = (0, x[1] if r is None else min(r[1], x[1]))
                else:
                    if x is None or x[0] < 0: return None
                    r = (0, ranges.bits_up(max(x[1], r[1] if r else 0)))
            return r
        if a.op == 'mop':
            x, y = self.range(self.unnode(a.a[1])), self.range(self.unnode(a.a[2]))
            if x is None or y is None: return None
            return ranges.arith({'/': 'Div', '%': 'Rem', '<<': 'Shl', '>>': 'Shr'}[a.a[0]], x, y, 'i128')
        if a.op == 'mapp' and a.a[0] == 'numbits': return (0, 64)
        if a.ty in T.WIDTH: return T.rng(a.ty)
        return None
    def range(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = 1, 1
            for a in m:
                r = self.arange(a)
                if r is None: return None
                v = (l * r[0], l * r[1], h * r[0], h * r[1]); l, h = min(v), max(v)
            if c < 0: l, h = h, l
            lo += c * l; hi += c * h
        return lo, hi
    # ---- terms of generated code
    def trunc(self, p, ty):
        r = self.range(p); lo, hi = T.rng(ty)
        if r is not None and lo <= r[0] and r[1] <= hi: return p
        if self.isconst(p): return self.const(T.wrap(self.cval(p), ty))
        return self.atom(mk('mtrunc', ty, self.node(p)))
    def of(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self._of(t)
        return r
    def _of(self, t):
        t = whole(t)
        if isint(t) and not isinstance(t.a[0], (float, bool)): return self.const(t.a[0])
        if t.op == 'cast':
            f = t.a[0].ty
            if f == 'bool' and t.ty in T.WIDTH: return self.ite(self.cond(t.a[0]), self.const(1), {})
            if (f in T.WIDTH or t.a[0].op in ('len', 'discr')) and t.ty in T.WIDTH: return self.trunc(self.of(t.a[0]), t.ty)
            return self.atom(t)
        if t.op == 'bin' and t.ty in T.WIDTH:
            o, x, y = t.a[:3]
            if o in ('Add', 'Sub', 'Mul'): return self.op({'Add': '+', 'Sub': '-', 'Mul': '*'}[o], self.of(x), self.of(y))
            if o in ('BitAnd', 'BitOr', 'BitXor'): return self.op({'BitAnd': '&', 'BitOr': '|', 'BitXor': '^'}[o], self.of(x), self.of(y))
            if o in ('Div', 'Rem'): return self.op('/' if o == 'Div' else '%', self.of(x), self.of(y))
            if o == 'Shl': return self.trunc(self.op('<<', self.of(x), self.of(y)), t.ty)
            if o == 'Shr': return self.op('>>', self.of(x), self.of(y))
        if t.op == 'un' and t.ty in T.WIDTH:
            if t.a[0] == 'Neg': return self.neg(self.of(t.a[1]))
            if t.a[0] == 'Not':
                top = -1 if t.ty in T.SIGNED else (1 << T.WIDTH[t.ty]) - 1
                return self.add(self.const(top), self.of(t.a[1]), -1)
        if t.op == 'ite': return self.ite(self.cond(t.a[0]), self.of(t.a[1]), self.of(t.a[2]))
        if t.op == 'app' and t.a[0] == 'numbits': return self.numbits(self.of(t.a[1]))
        return self.atom(self.canon(t))
    def numbits(self, p): return self.atom(mk('mapp', 'numbits', self.node(p)))
    def canon(self, t):
        """fields and elements, index terms in normal form"""
        t = whole(t)
        if t.op == 'fld' and t.a[1][0] == 'i':
            n = self.of(t.a[1][1])
            b = self.canon(t.a[0])
            if self.isconst(n): return PROJ(b, ('i', INT(self.cval(n), 'usize')), ty=t.ty)
            return mk('midx', b, self.node(n), ty=t.ty)
        if t.op == 'fld':
            b = self.canon(t.a[0])
            return t if b is t.a[0] else PROJ(b, t.a[1], ty=t.ty)
        if t.op == 'len':
            b = self.canon(t.a[0])
            return t if b is t.a[0] else LEN(b)
        return t
    # ---- floats: trees of operations, conversions between float types dropped
    def fconst(self, v): return mk('fconst', repr(float(v)))
    def fop(self, o, x, y):
        if x.op == 'fconst' and y.op == 'fconst':
            a, b = float(x.a[0]), float(y.a[0])
            if o == '/' and b == 0: raise Unsupported('division of constants by zero')
            return self.fconst({'+': a + b, '-': a - b, '*': a * b, '/': a / b}[o] if o == '/' else a + b if o == '+' else a - b if o == '-' else a * b)
        if o in '+*' and x.id > y.id: x, y = y, x
        return mk('app', 'f' + o, x, y, ty='f64')
    def fneg(self, x):
        if x.op == 'fconst': return self.fconst(-float(x.a[0]))
        return mk('app', 'fneg', x, ty='f64')
    def i2f(self, p): return self.fconst(self.cval(p)) if self.isconst(p) else mk('app', 'i2f', self.node(p), ty='f64')
    def fcmp(self, o, x, y):
        if x.op == 'fconst' and y.op == 'fconst':
            a, b = float(x.a[0]), float(y.a[0])
            return BOOL(a == b if o == '==' else a < b if o == '<' else a <= b)
        if o == '==' and x.id > y.id: x, y = y, x
        return mk('app', 'f' + o, x, y, ty='bool')
    def flt(self, t):
        t = whole(t)
        if isint(t) and t.a[1] in T.FLOATS:
            v = t.a[0]
            return self.fconst(v if isinstance(v, float) else fbits(v, t.a[1]))
        if t.op == 'cast' and t.ty in T.FLOATS:
            f = t.a[0].ty
            if f in T.FLOATS or isint(t.a[0]) and t.a[0].a[1] in T.FLOATS: return self.flt(t.a[0])
            if f in T.WIDTH or t.a[0].op in ('len', 'discr'): return self.i2f(self.of(t.a[0]))
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub', 'Mul', 'Div') and t.ty in T.FLOATS:
            return self.fop({'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/'}[t.a[0]], self.flt(t.a[1]), self.flt(t.a[2]))
        if t.op == 'un' and t.a[0] == 'Neg': return self.fneg(self.flt(t.a[1]))
        if t.op == 'ite': return ITE(self.cond(t.a[0]), self.flt(t.a[1]), self.flt(t.a[2]))
        return self.canon(t)
    def cond(self, c):
        r = self.cmemo.get(c)
        if r is None: r = self.cmemo[c] = self._cond(c)
        return r
    def _cond(self, c):
        if c.op == 'int': return c
        if c.op == 'not': return NOT(self.cond(c.a[0]))
        if c.op == 'ite': return ITE(self.cond(c.a[0]), self.cond(c.a[1]), self.cond(c.a[2]))
        if c.op == 'bin' and c.a[0] in ('Eq', 'Le', 'Lt') and (c.a[1].ty in T.FLOATS or c.a[2].ty in T.FLOATS):
            return self.fcmp({'Eq': '==', 'Le': '<=', 'Lt': '<'}[c.a[0]], self.flt(c.a[1]), self.flt(c.a[2]))
        if c.op == 'bin' and c.a[0] in ('Eq', 'Le'):
            x, y = c.a[1], c.a[2]
            t = x.ty if x.ty in T.WIDTH or x.ty == 'bool' else y.ty
            if t == 'bool': return self.booleq(self.cond(x), self.cond(y))
            if t in T.WIDTH or x.op == 'len' or y.op == 'len':
                d = self.add(self.of(y), self.of(x), -1)
                return self.ge(d) if c.a[0] == 'Le' else self.eq(d)
        if c.op == 'app' and c.a[0] == 'eq': 
            return mk('app', 'eq', *sorted((self.canon(c.a[1]), self.canon(c.a[2])), key=lambda n: n.id), ty='bool')
        return self.canon(c)
    def booleq(self, a, b):
        if a.op == 'int': return b if a.a[0] else NOT(b)
        if b.op == 'int': return a if b.a[0] else NOT(a)
        if a.id > b.id: a, b = b, a
        return ITE(a, b, NOT(b))
    def split(self, p):
        """-> (sign, linear part node, gcd, constant)"""
        items = [(m, c) for m, c in self.node(p).a[0] if m != ()]
        g = 0
        for m, c in items: g = math.gcd(g, c)
        s = 1 if items[0][1] > 0 else -1
        return s, mk('mpoly', tuple((m, s * c // g) for m, c in items)), g, p.get((), 0)
    def ge(self, p):
        """p >= 0"""
        if self.isconst(p): return BOOL(self.cval(p) >= 0)
        r = self.range(p)
        if r is not None and r[0] >= 0: return BOOL(True)
        if r is not None and r[1] < 0: return BOOL(False)
        s, L, g, c = self.split(p)
        # s*g*L + c >= 0
        if s > 0:      # L >= ceil(-c/g)
            return mk('mge', L, -((c) // g), ty='bool')
        return NOT(mk('mge', L, c // g + 1, ty='bool'))
    def eq(self, p):
        if self.isconst(p): return BOOL(self.cval(p) == 0)
        r = self.range(p)
        if r is not None and (r[0] > 0 or r[1] < 0): return BOOL(False)
        s, L, g, c = self.split(p)
        if c % g: return BOOL(False)
        v = -s * c // g
        it = L.a[0]
        if len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 1:
            a = it[0][0][0]
            if a.op == 'discr': return BIN('Eq', a, INT(v, 'i128'), 'bool')
            if a.op == 'mbit' and a.a[0] == '&' and v > 0 and v & (v - 1) == 0:
                k = [self.unnode(n) for n in a.a[1]]
                if any(self.isconst(x) and self.cval(x) == v for x in k): return NOT(mk('meq', L, 0, ty='bool'))
        return mk('meq', L, v, ty='bool')
    # ---- deciding under path facts
    def bounds(self, I, st, L):
        r = self.range(self.unnode(L))
        lo, hi = r if r is not None else (None, None)
        ne = set()
        for f, v in st.pc.items():
            if isinstance(f, N) and f.op in ('mge', 'meq') and f.a[0] is L:
                k = f.a[1]
                if f.op == 'mge':
                    if v: lo = k if lo is None else max(lo, k)
                    else: hi = k - 1 if hi is None else min(hi, k - 1)
                elif v: lo = hi = k
                else: ne.add(k)
        while lo is not None and lo in ne: lo += 1
        while hi is not None and hi in ne: hi -= 1
        return lo, hi, ne
    def decide(self, I, st, c):
        if c.op not in ('mge', 'meq'): return None
        L, k = c.a
        lo, hi, ne = self.bounds(I, st, L)
        if c.op == 'mge':
            if lo is not None and lo >= k: return True
            if hi is not None and hi < k: return False
            return None
        if k in ne or lo is not None and k < lo or hi is not None and k > hi: return False
        if lo is not None and lo == hi == k: return True
        return None
    def resolve(self, I, st, p):
        """decided gates taken, casts that the path facts show to be harmless dropped"""
        r = {}
        for m, c in p.items():
            q = {(): c}
            for a in m: q = self.mul(q, self.ratom(I, st, a))
            r = self.add(r, q)
        return r
    def settled(self, I, st, q):
        """decide a condition after its operands were simplified under the facts"""
        q = self.cond(q)
        d = I.decide(st, q)
        if d is not None: return d
        if q.op == 'not':
            d = self.settled(I, st, q.a[0]); return None if d is None else not d
        if q.op in ('meq', 'mge'):
            L = self.unnode(q.a[0]); r = self.resolve(I, st, L)
            if r == L: return None
            p = self.add(r, self.const(-q.a[1]))
            return I.decide(st, self.eq(p) if q.op == 'meq' else self.ge(p))
        return None
    def ratom(self, I, st, a):
        if a.op == 'mite':
            d = self.settled(I, st, a.a[0])
            if d is not None: return self.resolve(I, st, self.unnode(a.a[1 if d else 2]))
        if a.op == 'mtrunc':
            p = self.resolve(I, st, self.unnode(a.a[1]))
            if self.isconst(p): return self.const(T.wrap(self.cval(p), a.a[0]))
            s, L, g, c = self.split(p)
            lo, hi, _ = self.bounds(I, st, L)
            if lo is not None and hi is not None:
                v = (s * g * lo + c, s * g * hi + c); l, h = T.rng(a.a[0])
                if l <= min(v) and max(v) <= h: return p
                n = h - l + 1; k = (min(v) - l) // n
                if k == (max(v) - l) // n: return self.add(p, self.const(-k * n))
            return self.trunc(p, a.a[0])
        if a.op == 'mop': return self.op(a.a[0], self.resolve(I, st, self.unnode(a.a[1])), self.resolve(I, st, self.unnode(a.a[2])))
        if a.op == 'mbit':
            p = None
            for n in a.a[1]:
                q = self.resolve(I, st, self.unnode(n)); p = q if p is None else self.op(a.a[0], p, q)
            return p
        if a.op == 'mapp': return self.numbits(self.resolve(I, st, self.unnode(a.a[1])))
        return self.atom(a)
    def gates(self, p):
        for m in p:
            for a in m:
                for x in walk(a):
                    if x.op == 'mite': yield x.a[0]
                    elif x.op == 'ite' and x.ty == 'bool': yield x.a[0]
    def mod(self, p, w):
        """canonical representative modulo 2**w"""
        r = {}
        for m, c in p.items():
            q = {(): c}
            for a in m:
                if a.op == 'mtrunc' and T.WIDTH[a.a[0]] >= w: q = self.mul(q, self.mod(self.unnode(a.a[1]), w))
                elif a.op == 'mite': q = self.mul(q, self.ite(a.a[0], self.mod(self.unnode(a.a[1]), w), self.mod(self.unnode(a.a[2]), w)))
                else: q = self.mul(q, self.atom(a))
            r = self.add(r, q)
        return {m: c % (1 << w) for m, c in r.items() if c % (1 << w)}
    def equal(self, rd, st, p, q, budget, w=None):
        """p == q under the facts of st, gates explored"""
        budget[0] -= 1
        if budget[0] < 0: return False
        I = rd.I
        p, q = self.resolve(I, st, p), self.resolve(I, st, q)
        if w is not None: p, q = self.mod(p, w), self.mod(q, w)
        if p == q: return True
        d = self.add(p, q, -1)
        for c in self.gates(d):
            c = gatecond(rd, st, c)
            if c is not None:
                s1 = State(st.env, [], dict(st.pc)); I.assume(s1, c, True)
                s2 = State(st.env, [], dict(st.pc)); I.assume(s2, c, False)
                return self.equal(rd, s1, p, q, budget, w) and self.equal(rd, s2, p, q, budget, w)
        if w is None:
            e = self.eq(d)
            return I.decide(st, e) is True
        return False
    def cond_equal(self, rd, st, a, b, budget):
        budget[0] -= 1
        if budget[0] < 0: return False
        I = rd.I
        if a is b: return True
        for x in (a, b):
            c = gatecond(rd, st, x)
            if c is not None:
                s1 = State(st.env, [], dict(st.pc)); I.assume(s1, c, True)
                s2 = State(st.env, [], dict(st.pc)); I.assume(s2, c, False)
                return self.cond_equal(rd, s1, a, b, budget) and self.cond_equal(rd, s2, a, b, budget)
        x, y = I.decide(st, a), I.decide(st, b)
        return x is not None and x == y

def fbits(v, ty):
    """value of float bits; the shortest decimal for the narrow types"""
    import struct
    if ty == 'f64': return struct.unpack('<d', struct.pack('<Q', v))[0]
    f = '<f' if ty == 'f32' else '<e'
    x = struct.unpack(f, v.to_bytes(4 if ty == 'f32' else 2, 'little'))[0]
    for n in range(1, 18):
        y = float('%.*g' % (n, x))
        if struct.unpack(f, struct.pack(f, y))[0] == x: return y
    return x

class ORd(Reader):
    """decision procedure with the facts of the normal form"""
    def __init__(self, F, M): Reader.__init__(self, F, 'gen'); self.M = M; self.I = Interp(F, policy=self.policy); self.I.decide_hook = self.decide
    def decide(self, st, c):
        if c.op in ('mge', 'meq'): return self.M.decide(self.I, st, c)
        return Reader.decide(self, st, c)

# ------------------------------------------------------------------ expression values
class V:
    """kind: num (poly) | bool (cond) | str | flt | val (term of a resolved type) | arr | type | pkg | enumty"""
    __slots__ = ('k', 'x', 'ty', 'rt', 'fld')
    def __init__(self, k, x, ty=None, rt=None, fld=None): self.k, self.x, self.ty, self.rt, self.fld = k, x, ty, rt, fld
    def __repr__(self): return 'V(%s,%r)' % (self.k, self.x)

def norm(n): return n.replace('r#', '').replace('_', '').lower()

class Scope:
    """where an expression is evaluated: an instance, the term of its object and its Rust type"""
    def __init__(self, O, inst, term, rt, index=None): self.O, self.inst, self.term, self.rt, self.index = O, inst, term, rt, index
    @property
    def pkg(self): return self.inst.decl.pkg
    def at(self, i): return Scope(self.O, self.inst, self.term, self.rt, i)

class Oracle:
    def __init__(self, F, G, root):
        self.F, self.G = F, G
        self.S = S.Schemas(root); self.M = Num(); self.rd = ORd(F, self.M)
        self._enum = {}; self._const = {}; self._slots = {}; self.obl = []
    # ---- members
    def slots(self, rt):
        return self.F.adts[rt[1]]['variants'][0]['fields']
    def slot(self, rt, name, inst):
        """index of the Rust field holding a schema member"""
        k = (rt[1], inst.key)
        if k not in self._slots: self._slots[k] = self.slotmap(rt, inst)
        if name not in self._slots[k]: raise Mismatch('%s has no field for schema member %s of %s' % (rt[1], name, inst))
        return self._slots[k][name]
    def slotmap(self, rt, inst):
        fs = self.slots(rt)
        names = [n for n, _ in inst.decl.params] + [f.name for f in inst.decl.fields]
        out = {}; used = set()
        groups = {}
        for n in names: groups.setdefault(norm(n), []).append(n)
        for n, ms in groups.items():
            hit = [i for i, f in enumerate(fs) if norm(f[0]) == n]
            for m, i in zip(ms, hit): out[m] = i; used.add(i)
        for m in names:      # a prefix or suffix avoids a clash with a keyword or another member
            if m in out: continue
            hit = [i for i, f in enumerate(fs) if i not in used and (norm(f[0]).endswith(norm(m)) or norm(f[0]).startswith(norm(m))) and len(norm(f[0])) - len(norm(m)) <= 6]
            hit.sort(key=lambda i: len(fs[i][0]))
            if hit: out[m] = hit[0]; used.add(hit[0])
        return out
    def member(self, sc, name):
        """-> V of a parameter or field of the scope's instance, or None"""
        d = sc.inst.decl
        for pn, pt in d.params:
            if pn == name: return self.fieldval(sc, name, self.S.resolve(pt, d.pkg, self.S.env(sc.inst)), None)
        for f in d.fields:
            if f.name == name: return self.fieldval(sc, name, self.S.resolve(f.type, d.pkg, self.S.env(sc.inst)), f)
        return None
    def fieldval(self, sc, name, ty, f):
        i = self.slot(sc.rt, name, sc.inst)
        rt = self.slots(sc.rt)[i][1]
        t = PROJ(sc.term, ('f', None, i))
        if t.ty is None and tystr(rt): t.ty = tystr(rt)
        if f is not None and f.optional:
            t = PROJ(t, ('f', 1, 0)); rt = rt[2][0] if rt[0] == 'adt' and rt[1] == OPTION else rt
            if t.ty is None and tystr(rt): t.ty = tystr(rt)
        if f is not None and f.array is not None: return V('arr', t, ty, rt[2][0] if rt[0] == 'adt' else rt, f)
        return self.value(t, ty, rt)
    def value(self, t, ty, rt):
        """V of a term holding a schema type"""
        if t.ty is None and tystr(rt): t.ty = tystr(rt)
        if ty.inst is None:
            if ty.b == 'bool': return V('bool', self.M.cond(t))
            if ty.b in ('float16', 'float32', 'float64'): return V('flt', t)
            if ty.b == 'string': return V('str', t)
            if ty.b in ('bytes', 'extern'): return V('blob', t)
            return V('num', self.M.of(t), ty)
        k = ty.inst.decl.kind
        if k == 'enum':
            adt = self.F.adts.get(rt[1]) if rt[0] == 'adt' else None
            if adt is None or adt['kind'] != 'enum': raise Mismatch('%s is represented by %s' % (ty, ty_str(rt)))
            return V('enum', self.M.of(DISCR(t, adt)), ty, rt)
        if k == 'bitmask':
            b = PROJ(t, ('f', None, 0))
            if b.ty is None: b.ty = tystr(self.slots(rt)[0][1])
            return V('mask', self.M.of(b), ty, rt)
        return V('obj', t, ty, rt)
    # ---- names
    def enumvals(self, inst):
        """item -> number"""
        if inst.key in self._enum: return self._enum[inst.key]
        self._enum[inst.key] = out = {}
        d = inst.decl; prev = None
        for n, e, flag in d.items:
            if e is not None: v = self.constnum(e, d.pkg, inst)
            elif prev is None: v = 0 if d.kind == 'enum' else 1
            elif d.kind == 'enum': v = prev + 1
            else: v = 1 << max(1, prev.bit_length())
            out[n] = v; prev = v
        return out
    def constnum(self, e, pkg, inst=None):
        v = self.ev(e, None, pkg)
        if v.k in ('num', 'enum', 'mask') and self.M.isconst(v.x): return self.M.cval(v.x)
        raise Unsupported('not a constant: %r' % (e,))
    def constval(self, d):
        if id(d) not in self._const:
            v = self.ev(d.value, None, d.pkg)
            self._const[id(d)] = v
        return self._const[id(d)]
    def declval(self, d):
        if d.kind == 'const': return self.constval(d)
        if d.kind in ('enum', 'bitmask'): return V('type', S.Inst(d))
        if d.kind in ('subtype', 'instantiate'):
            t = self.S.resolve(d.type, d.pkg, {})
            if t.inst is not None and t.inst.decl.kind in ('enum', 'bitmask'): return V('type', t.inst)
        raise Unsupported('%s in an expression' % d)
    def item(self, inst, name):
        vals = self.enumvals(inst)
        if name not in vals: raise Unsupported('%s has no item %s' % (inst, name))
        if inst.decl.kind == 'enum': return V('enum', self.M.const(self.discr(vals[name])), S.Ty(inst=inst))
        return V('mask', self.M.const(vals[name]), S.Ty(inst=inst))
    @staticmethod
    def discr(v):
        """Rust discriminants are signed: numbers above keep their bit pattern"""
        return v - (1 << 64) if v >= 1 << 63 else v
    def itemnum(self, inst, p):
        """number of an item from its discriminant"""
        return self.M.trunc(p, 'u64') if any(v >= 1 << 63 for v in self.enumvals(inst).values()) else p
    # ---- evaluation
    def num(self, v):
        if v.k in ('num', 'enum', 'mask'): return v.x
        raise Unsupported('%s where a number is needed' % v.k)
    def ev(self, e, sc, pkg=None, hint=None):
        M = self.M; o = e[0]
        pkg = pkg or sc.pkg
        ev = lambda x: self.ev(x, sc, pkg, hint)
        if o == 'int': return V('num', M.const(e[1]))
        if o == 'bool': return V('bool', BOOL(e[1]))
        if o == 'float': return V('flt', M.fconst(e[1]))
        if o == 'str': return V('str', mk('str', e[1]))
        if o == 'paren': return ev(e[1])
        if o == 'index':
            if sc is None or sc.index is None: raise Unsupported('@index outside an array')
            return V('num', M.of(sc.index))
        if o == 'id':
            n = e[1]
            if hint is not None and n in self.enumvals(hint): return self.item(hint, n)
            if sc is not None:
                v = self.member(sc, n)
                if v is not None: return v
            d = self.S.lookup(pkg, (n,))
            if d is not None: return self.declval(d)
            if any(p[:1] == (n,) for p in self.S.packages): return V('pkg', (n,))
            raise Unsupported('unknown name %s' % n)
        if o == 'dot':
            l = ev(e[1]); n = e[2]
            if l.k == 'pkg':
                q = l.x
                if q in self.S.packages and n in self.S.packages[q].decls: return self.declval(self.S.packages[q].decls[n])
                if any(p[:len(q) + 1] == q + (n,) for p in self.S.packages): return V('pkg', q + (n,))
                raise Unsupported('unknown %s.%s' % ('.'.join(q), n))
            if l.k == 'type': return self.item(l.x, n)
            if l.k == 'obj':
                s2 = Scope(self, l.ty.inst, l.x, l.rt)
                v = self.member(s2, n)
                if v is not None: return v
                return V('fn', (s2, n))
            raise Unsupported('. on %s' % l.k)
        if o == 'call':
            if e[1][0] == 'id': s2, n = sc, e[1][1]
            else:
                f = ev(e[1])
                if f.k != 'fn': raise Unsupported('call of %s' % f.k)
                s2, n = f.x
            for fn, ft, fe in s2.inst.decl.funcs:
                if fn == n: return self.retval(self.S.resolve(ft, s2.pkg, self.S.env(s2.inst)), self.ev(fe, s2))
            raise Unsupported('no function %s' % n)
        if o == 'idx':
            a = ev(e[1]); i = self.ev(e[2], sc, pkg)
            if a.k != 'arr': raise Unsupported('index of %s' % a.k)
            n = self.num(i)
            self.obl.append(M.ge(M.add(M.add(M.of(LEN(a.x)), n, -1), M.const(-1))))
            if M.isconst(n): t = PROJ(a.x, ('i', INT(M.cval(n), 'usize')))
            else: t = PROJ(a.x, ('i', sc.index)) if e[2] == ('index',) else mk('midx', M.canon(a.x), M.node(n))
            return self.value(t, a.ty, a.rt)
        if o == 'lengthof':
            a = ev(e[1])
            if a.k == 'arr': return V('num', M.of(LEN(a.x)))
            raise Unsupported('lengthof %s' % a.k)
        if o == 'numbits': return V('num', M.numbits(self.num(ev(e[1]))))
        if o == 'valueof':
            a = ev(e[1])
            return V('num', self.itemnum(a.ty.inst, a.x) if a.k == 'enum' and a.ty is not None and a.ty.inst is not None else self.num(a))
        if o == 'isset':
            m, f = ev(e[1]), self.ev(e[2], sc, pkg, hint)
            a = M.op('&', self.num(m), self.num(f))
            return V('bool', M.eq(M.add(a, self.num(f), -1)))
        if o == 'un':
            v = ev(e[2])
            if e[1] == '!': return V('bool', NOT(self.tobool(v)))
            if v.k == 'flt': return V('flt', M.fneg(M.flt(v.x)) if e[1] == '-' else v.x)
            p = self.num(v)
            if e[1] == '-': return V('num', M.neg(p))
            if e[1] == '+': return V('num', p)
            return V('mask' if v.k == 'mask' else 'num', M.add(M.const(-1), p, -1), v.ty if v.k == 'mask' else None)
        if o == 'tern':
            c = self.tobool(ev(e[1])); a, b = ev(e[2]), ev(e[3])
            if a.k == 'bool': return V('bool', ITE(c, a.x, self.tobool(b)))
            if a.k == 'flt' or b.k == 'flt': return V('flt', ITE(c, self.asflt(a), self.asflt(b)))
            if a.k == b.k and a.k in ('str', 'obj'): return V(a.k, ITE(c, a.x, b.x), a.ty, a.rt)
            return V(a.k, M.ite(c, self.num(a), self.num(b)), a.ty, a.rt)
        if o == 'bin':
            q = e[1]
            if q in ('&&', '||'):
                a, b = self.tobool(ev(e[2])), self.tobool(ev(e[3]))
                return V('bool', AND(a, b) if q == '&&' else OR(a, b))
            a, b = ev(e[2]), ev(e[3])
            if q in ('==', '!=', '<', '<=', '>', '>='):
                if a.k == 'bool' or b.k == 'bool':
                    r = M.booleq(self.tobool(a), self.tobool(b))
                elif a.k == 'str' or b.k == 'str':
                    x, y = M.canon(a.x), M.canon(b.x)
                    r = mk('app', 'eq', *sorted((x, y), key=lambda n: n.id), ty='bool') if not (x.op == 'str' and y.op == 'str') else BOOL(x is y)
                elif a.k == 'flt' or b.k == 'flt':
                    x, y = self.asflt(a), self.asflt(b)
                    if q in ('>', '>='): x, y = y, x
                    r = M.fcmp({'!=': '==', '>': '<', '>=': '<='}.get(q, q), x, y)
                else:
                    d = M.add(self.num(b), self.num(a), -1)      # b - a
                    if q in ('==', '!='): r = M.eq(d)
                    elif q == '<=': return V('bool', M.ge(d))
                    elif q == '<': return V('bool', M.ge(M.add(d, M.const(-1))))
                    elif q == '>=': return V('bool', M.ge(M.neg(d)))
                    else: return V('bool', M.ge(M.add(M.neg(d), M.const(-1))))
                return V('bool', NOT(r) if q == '!=' else r)
            if q == '+' and (a.k == 'str' or b.k == 'str'):
                if a.k != 'str' or b.k != 'str': raise Unsupported('string concatenation')
                return V('str', T.CONCAT((a.x, b.x)))
            if a.k == 'flt' or b.k == 'flt':
                return V('flt', M.fop(q, self.asflt(a), self.asflt(b)))
            if q in '/%': self.obl.append(NOT(M.eq(self.num(b))))
            r = M.op(q, self.num(a), self.num(b))
            if a.k == 'mask' and b.k == 'mask' and q in '&|^': return V('mask', r, a.ty, a.rt)
            return V('num', r)
        raise Unsupported(o)
    def asflt(self, v): return self.M.flt(v.x) if v.k == 'flt' else self.M.i2f(self.num(v))
    def tobool(self, v):
        if v.k == 'bool': return v.x
        if v.k in ('num', 'mask'): return NOT(self.M.eq(v.x))
        raise Unsupported('%s where a condition is needed' % v.k)
    def retval(self, ty, v):
        if v.k == 'num' and ty.inst is not None: return V('enum' if ty.inst.decl.kind == 'enum' else 'mask', v.x, ty)
        return v
