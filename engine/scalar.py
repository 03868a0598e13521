"""Scalar abstract domain: intervals + bit provenance, and the bit-stream transformers.

A codec function is interpreted abstractly once per class of its input (a finite partition of the whole value range by
magnitude).  Inside a class every branch of a codec is decided by the interval/bit domain; the result is the exact list of
wire bits, each one either a constant or "bit i of the input", valid for EVERY value of the class."""
from .terms import *
from . import terms as T
from .interp import Interp, State
from .facts import ty_str

class Imprecise(Exception): pass

class Dom:
    def __init__(self, facts=None):
        self.facts = dict(facts or {})      # N -> (lo, hi)
        self.rm = {}; self.bm = {}; self.lm = {}
    # ------------------------------------------------------------- intervals
    def rng(self, n):
        r = self.rm.get(n)
        if r is None:
            r = self._rng(n)
            f = self.facts.get(n)
            if f is not None and r is not None: r = (max(r[0], f[0]), min(r[1], f[1]))
            elif f is not None: r = f
            self.rm[n] = r
        return r
    def _negview(self, n):
        """0 - (x as unsigned) with x signed and negative  ->  (-x) as unsigned"""
        if n.op == 'bin' and n.a[0] == 'Sub' and isint(n.a[1]) and n.a[1].a[0] == 0 and n.ty in WIDTH and n.ty not in SIGNED:
            x = n.a[2]
            while x.op == 'cast' and x.ty in WIDTH and x.ty not in SIGNED and x.a[0].ty in WIDTH and WIDTH[x.a[0].ty] <= WIDTH[x.ty] and x.a[0].ty not in SIGNED: x = x.a[0]
            if x.op == 'cast' and x.a[0].ty in SIGNED and WIDTH[x.ty] == WIDTH[n.ty]:
                y = x.a[0]; r = self.rng(y)
                if r and r[1] < 0 and r[0] > T.rng(y.ty)[0]: return CAST(UN('Neg', y, y.ty), y.ty, n.ty)
        return None
    # ------------------------------------------------------------- linear forms (unbounded integers)
    def lin(self, n):
        """n = const + sum(coef * atom), exact (no wrapping), or None"""
        if n in self.lm: return self.lm[n]
        self.lm[n] = None
        r = self._lin(n)
        self.lm[n] = r
        return r
    def _lin(self, n):
        t = n.ty
        if n.op == 'int': return (n.a[0], {})
        if t not in WIDTH or t == 'bool': return None
        if n.op == 'ite':
            d = self.decide(n.a[0])
            if d is not None: return self.lin(n.a[1] if d else n.a[2])
        if n.op == 'cast' and n.a[0].ty in WIDTH and n.a[0].ty != 'bool':
            x = self.lin(n.a[0])
            if x is None: return (0, {n: 1})
            r = self.linrng(x); full = T.rng(t)
            if r and full[0] <= r[0] and r[1] <= full[1]: return x
            return (0, {n: 1})
        if n.op == 'bin' or n.op == 'app' and n.a[0] in ('div_ceil', 'next_multiple'):
            op = n.a[0]
            a, b = self.lin(n.a[1]), self.lin(n.a[2])
            r = None
            if a is None or b is None: return (0, {n: 1})
            if op in ('Add', 'Sub'):
                s = 1 if op == 'Add' else -1
                d = dict(a[1])
                for k, v in b[1].items():
                    d[k] = d.get(k, 0) + s * v
                    if d[k] == 0: del d[k]
                r = (a[0] + s * b[0], d)
            elif op == 'Mul':
                if not b[1]: r = (a[0] * b[0], {k: v * b[0] for k, v in a[1].items() if v * b[0]})
                elif not a[1]: r = (b[0] * a[0], {k: v * a[0] for k, v in b[1].items() if v * a[0]})
            elif op in ('Div', 'Rem', 'div_ceil', 'next_multiple') and not b[1] and b[0] > 0:
                m = b[0]; ra = self.linrng(a)
                if ra and ra[0] >= 0 and all(v % m == 0 for v in a[1].values()):
                    if op == 'Rem': r = (a[0] % m, {})
                    elif op == 'Div': r = (a[0] // m, {k: v // m for k, v in a[1].items()})
                    elif op == 'div_ceil': r = (-(-a[0] // m), {k: v // m for k, v in a[1].items()})
                    else: r = (-(-a[0] // m) * m, dict(a[1]))
            elif op == 'Shl' and not b[1] and 0 <= b[0] < WIDTH[t]:
                r = (a[0] << b[0], {k: v << b[0] for k, v in a[1].items()})
            elif op in ('Shr', 'BitAnd') and not b[1]:
                m = 1 << b[0] if op == 'Shr' and 0 <= b[0] < WIDTH[t] else b[0] + 1 if op == 'BitAnd' and b[0] & (b[0] + 1) == 0 and b[0] >= 0 else 0
                ra = self.linrng(a)
                if m and ra and ra[0] >= 0 and all(v % m == 0 for v in a[1].values()):
                    r = (a[0] // m, {k: v // m for k, v in a[1].items()}) if op == 'Shr' else (a[0] % m, {})
            if r is not None:
                q = self.linrng(r); full = T.rng(t)
                if q and full[0] <= q[0] and q[1] <= full[1]: return r
        return (0, {n: 1})
    def linrng(self, l):
        lo = hi = l[0]
        for k, v in l[1].items():
            f = self.facts.get(k) or (T.rng(k.ty) if k.ty in WIDTH else None)
            if k not in self.facts and k.op not in ('sym', 'fld', 'len'):
                f = self.rm.get(k) or f
            if f is None: return None
            p = (v * f[0], v * f[1])
            lo += min(p); hi += max(p)
        return (lo, hi)
    def lin_eq(self, a, b):
        x, y = self.lin(a), self.lin(b)
        return x is not None and x == y
    def _rng(self, n):
        r = self._rng0(n)
        if n.op in ('bin', 'app') and n.ty in WIDTH and n.ty != 'bool':
            l = self.lin(n)
            if l is not None and not (len(l[1]) == 1 and n in l[1]):
                q = self.linrng(l)
                if q: r = (max(r[0], q[0]), min(r[1], q[1])) if r else q
        return r
    def _rng0(self, n):
        o, t = n.op, n.ty
        if o == 'bin' and n.a[0] == 'Sub':
            q = self._negview(n)
            if q is not None: return self.rng(q)
        if o == 'int':
            return (n.a[0], n.a[0])
        full = rng(t) if t in WIDTH else None
        if o == 'cast' and t in WIDTH:
            x = n.a[0]
            if x.ty not in WIDTH: return full
            r = self.rng(x)
            if r and full[0] <= r[0] and r[1] <= full[1]: return r
            return self._bitrng(n, full)
        if o == 'un' and n.a[0] == 'Neg' and t in WIDTH:
            r = self.rng(n.a[1])
            if r and full[0] <= -r[1] and -r[0] <= full[1]: return (-r[1], -r[0])
            return full
        if o == 'ite':
            d = self.decide(n.a[0])
            if d is not None: return self.rng(n.a[1] if d else n.a[2])
            a, b = self.rng(n.a[1]), self.rng(n.a[2])
            if a and b: return (min(a[0], b[0]), max(a[1], b[1]))
            return full
        if o == 'bin' and t in WIDTH and t != 'bool':
            op = n.a[0]
            a, b = self.rng(n.a[1]), self.rng(n.a[2])
            r = None
            if a and b:
                if op == 'Add': r = (a[0] + b[0], a[1] + b[1])
                elif op == 'Sub': r = (a[0] - b[1], a[1] - b[0])
                elif op == 'Mul':
                    p = [x * y for x in a for y in b]; r = (min(p), max(p))
                elif op == 'Shr' and b[0] >= 0 and b[1] < WIDTH[t]:
                    p = [x >> y for x in a for y in b]; r = (min(p), max(p))
                elif op == 'Shl' and b[0] >= 0 and b[1] < WIDTH[t] and a[0] >= 0:
                    r = (a[0] << b[0], a[1] << b[1])
                elif op == 'Div' and (b[0] > 0):
                    if a[0] >= 0: r = (a[0] // b[1], a[1] // b[0])
                elif op == 'Rem' and b[0] > 0 and a[0] >= 0:
                    if b[0] == b[1] and a[0] // b[0] == a[1] // b[0]: r = (a[0] % b[0], a[1] % b[0])
                    else: r = (0, min(a[1], b[1] - 1))
            if r and full[0] <= r[0] and r[1] <= full[1]:
                if op in ('Shr', 'Shl'):
                    q = self._bitrng(n, full)
                    r = (max(r[0], q[0]), min(r[1], q[1]))
                return r
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Add'): return self._bitrng(n, full)
            return full
        if o == 'app':
            f = n.a[0]
            if f == 'div_ceil':
                a, b = self.rng(n.a[1]), self.rng(n.a[2])
                if a and b and b[0] > 0: return (-(-a[0] // b[1]), -(-a[1] // b[0]))
            if f in ('int:leading_zeros', 'int:ilog2') and n.a[1].ty in WIDTH:
                w = WIDTH[n.a[1].ty]; r = self.rng(n.a[1])
                if r and r[0] >= 0:
                    lo, hi = r[0].bit_length(), r[1].bit_length()
                    return (w - hi, w - lo) if 'zeros' in f else (max(lo - 1, 0), max(hi - 1, 0))
                if r and r[1] < 0 and 'zeros' in f: return (0, 0)
            if f == 'charat':
                r = self.rng(n.a[2]); s = n.a[1].a[0]
                if r and 0 <= r[0] and r[1] < len(s):
                    q = [ord(c) for c in s[r[0]:r[1] + 1]]
                    return (min(q), max(q))
        if o == 'bitv': return self._bitrng(n, full)
        if o == 'discr' and n.a[1]: return (min(n.a[1]), max(n.a[1]))
        return full
    def _bitrng(self, n, full):
        b = self.bits(n, False)
        if b is None: return full
        t = n.ty
        lo = hi = 0
        w = len(b)
        for i, x in enumerate(b):
            wt = 1 << i
            if t in SIGNED and i == w - 1: wt = -wt
            if x == 1: lo += wt; hi += wt
            elif x == 0: pass
            elif wt > 0: hi += wt
            else: lo += wt
        # bits that are an aligned contiguous slice of one base keep the base's interval
        return (max(lo, full[0]), min(hi, full[1])) if full else (lo, hi)
    # ------------------------------------------------------------- bits
    def bits(self, n, useR=True):
        """bits LSB first: 0, 1 or (base term, index)"""
        k = n
        b = self.bm.get(k)
        if b is None:
            t = n.ty
            if t not in WIDTH: return None
            self.bm[k] = tuple((n, i) for i in range(WIDTH[t]))     # guard
            b = tuple(self._bits(n, t))
            self.bm[k] = b
        return b
    def _bits(self, n, t):
        w = WIDTH[t]
        o = n.op
        if o == 'int': return [(n.a[0] >> i) & 1 for i in range(w)]
        if o == 'bitv': return list(n.a[0])
        if o == 'not' and t == 'bool':
            b = self.bits(n.a[0])[0]
            return [1 - b] if b in (0, 1) else [(n, 0)]
        if o == 'cast' and n.a[0].ty in WIDTH:
            x = n.a[0]
            b = self.bits(x)
            wf = WIDTH[x.ty]
            if w <= wf: return list(b[:w])
            r = self.rng(x)
            if x.ty in SIGNED:
                s = b[-1]
                if r and r[0] >= 0: s = 0
                if r and r[1] < 0: s = 1
            else: s = 0
            return list(b) + [s] * (w - wf)
        if o == 'ite':
            d = self.decide(n.a[0])
            if d is not None: return list(self.bits(n.a[1] if d else n.a[2]))
        if o == 'bin':
            op = n.a[0]
            if op == 'Sub':
                q = self._negview(n)
                if q is not None: return list(self.bits(q))
            if op in ('Shl', 'Shr'):
                r = self.rng(n.a[2])
                if r and r[0] == r[1]:
                    s = r[0] % w; b = self.bits(n.a[1])
                    if op == 'Shl': return [0] * s + list(b[:w - s])
                    fill = 0
                    if t in SIGNED:
                        fill = b[-1]
                    return list(b[s:]) + [fill] * s
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                x, y = self.bits(n.a[1]), self.bits(n.a[2])
                out = []
                for i, (p, q) in enumerate(zip(x, y)):
                    if isinstance(q, int) and not isinstance(p, int): p, q = q, p
                    if isinstance(p, int) and isinstance(q, int):
                        out.append(p & q if op == 'BitAnd' else p | q if op == 'BitOr' else p ^ q)
                    elif isinstance(p, int):
                        if op == 'BitAnd': out.append(q if p else 0)
                        elif op == 'BitOr': out.append(1 if p else q)
                        else: out.append(q if p == 0 else (n, i))
                    elif p == q and op != 'BitXor': out.append(p)
                    elif p == q: out.append(0)
                    else: out.append((n, i))
                return out
            if op == 'Add':
                x, y = self.bits(n.a[1]), self.bits(n.a[2])
                if all(p == 0 or q == 0 for p, q in zip(x, y)):
                    return [q if p == 0 else p for p, q in zip(x, y)]
            if op == 'Mul':
                for p, q in ((n.a[1], n.a[2]), (n.a[2], n.a[1])):
                    if isint(p) and p.a[0] > 0 and p.a[0] & (p.a[0] - 1) == 0:
                        s = p.a[0].bit_length() - 1; b = self.bits(q)
                        return [0] * s + list(b[:w - s])
            if op == 'Div' and isint(n.a[2]) and n.a[2].a[0] > 0 and n.a[2].a[0] & (n.a[2].a[0] - 1) == 0 and (self.rng(n.a[1]) or (-1,))[0] >= 0:
                s = n.a[2].a[0].bit_length() - 1; b = self.bits(n.a[1])
                return list(b[s:]) + [0] * s
            if op == 'Rem' and isint(n.a[2]) and n.a[2].a[0] > 0 and n.a[2].a[0] & (n.a[2].a[0] - 1) == 0 and (self.rng(n.a[1]) or (-1,))[0] >= 0:
                s = n.a[2].a[0].bit_length() - 1; b = self.bits(n.a[1])
                return list(b[:s]) + [0] * (w - s)
        # base: mask the bits an interval rules out
        f = self.facts.get(n)
        base = n
        r = f
        if r is None and o in ('un', 'bin', 'app', 'sym', 'fld', 'charat'):
            # range without bits to avoid recursion
            r = self.rng(n) if not (o == 'bin' and n.a[0] in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'Add')) else None
        out = [(base, i) for i in range(w)]
        if r:
            lo, hi = r
            if lo >= 0:
                for i in range(hi.bit_length(), w): out[i] = 0
                # common leading prefix of lo and hi
                i = hi.bit_length() - 1
                while i >= 0 and (lo >> i) == (hi >> i):
                    out[i] = (lo >> i) & 1; i -= 1
            elif hi < 0:
                k = (-lo - 1).bit_length()
                for i in range(k, w): out[i] = 1
        return out
    # ------------------------------------------------------------- decisions
    def decide(self, c):
        if c.op == 'int': return bool(c.a[0])
        f = self.facts.get(c)
        if f is not None and f[0] == f[1]: return bool(f[0])
        if c.op == 'not':
            d = self.decide(c.a[0])
            return None if d is None else not d
        if c.op == 'ite':
            d = self.decide(c.a[0])
            if d is not None: return self.decide(c.a[1] if d else c.a[2])
            a, b = self.decide(c.a[1]), self.decide(c.a[2])
            return a if a is not None and a == b else None
        if c.op == 'ovf?':
            op, x, y, t = c.a
            a, b = self.rng(x), self.rng(y)
            if a and b and t in WIDTH:
                if op == 'Add': r = (a[0] + b[0], a[1] + b[1])
                elif op == 'Sub': r = (a[0] - b[1], a[1] - b[0])
                else:
                    p = [i * j for i in a for j in b]; r = (min(p), max(p))
                lo, hi = T.rng(t)
                if lo <= r[0] and r[1] <= hi: return False
                if r[1] < lo or r[0] > hi: return True
            return None
        if c.op == 'bin' and c.a[0] in ('Le', 'Lt', 'Eq'):
            a, b = self.rng(c.a[1]), self.rng(c.a[2])
            if a and b:
                if c.a[0] == 'Le':
                    if a[1] <= b[0]: return True
                    if a[0] > b[1]: return False
                elif c.a[0] == 'Lt':
                    if a[1] < b[0]: return True
                    if a[0] >= b[1]: return False
                else:
                    if a[1] < b[0] or b[1] < a[0]: return False
                    if a[0] == a[1] == b[0] == b[1]: return True
            if c.a[0] == 'Eq':
                x, y = self.bits(c.a[1]), self.bits(c.a[2])
                if x and y:
                    if any(isinstance(p, int) and isinstance(q, int) and p != q for p, q in zip(x, y)): return False
                    if x == y: return True
        if c.op in ('bitv', 'fld', 'sym', 'cast') and c.ty == 'bool':
            b = self.bits(c)
            if b and b[0] in (0, 1): return bool(b[0])
        return None

    def canon_base(self, n):
        """strip value-preserving casts, normalise negation, for comparing provenance"""
        while True:
            if n.op == 'cast' and n.a[0].ty in WIDTH and n.ty in WIDTH:
                r = self.rng(n.a[0]); lo, hi = T.rng(n.ty)
                if r and lo <= r[0] and r[1] <= hi: n = n.a[0]; continue
                if WIDTH[n.ty] == WIDTH[n.a[0].ty]: n = n.a[0]; continue
            if n.op == 'bin' and n.a[0] == 'Sub' and isint(n.a[1]) and n.a[1].a[0] == 0:
                x = self.canon_base(n.a[2])
                return x.a[0] if x.op == 'neg' else mk('neg', x)
            if n.op == 'un' and n.a[0] == 'Neg':
                x = self.canon_base(n.a[1])
                return x.a[0] if x.op == 'neg' else mk('neg', x)
            if n.op in ('cast', 'bin') and n.ty in WIDTH:
                b = self.bits(n)
                if b and not any(not isinstance(q, int) and q[0] is n for q in b):
                    r = recompose(self, b, n.ty)
                    if r is not n and r.op != 'bitv': n = r; continue
            if n.op == 'bitv':
                r = recompose(self, n.a[0], n.ty)
                if r is not n: n = r; continue
            return n
    def canon_bits(self, bs):
        return tuple(b if isinstance(b, int) else (self.canon_base(b[0]), b[1]) for b in bs)
    def value_eq(self, a, b):
        """do a and b denote the same value for every input of the class?"""
        if a is b: return True
        ca, cb = self.canon_base(a), self.canon_base(b)
        if ca is cb and a.ty == b.ty: return True
        for x, y in ((ca, cb), (cb, ca)):
            if x.op == 'neg' and x.a[0].op == 'neg' and x.a[0].a[0] is y: return True
        if a.ty == b.ty and a.ty in WIDTH:
            x, y = self.bits(a), self.bits(b)
            if x and y and self.canon_bits(x) == self.canon_bits(y): return True
        if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return all(self.value_eq(x, y) for x, y in zip(a.a[2:], b.a[2:]))
        return False

def recompose(D, bits, t):
    """term for a bit vector"""
    bits = tuple(bits)
    if all(isinstance(b, int) for b in bits):
        v = sum(b << i for i, b in enumerate(bits))
        return INT(v, t)
    # contiguous low slice of one base covering its whole range
    base = next(b[0] for b in bits if not isinstance(b, int))
    if base.ty in WIDTH:
        bb = D.bits(base)
        w = max(len(bits), len(bb))
        r = D.rng(base)
        if r:
            lo, hi = T.rng(t)
            if lo <= r[0] and r[1] <= hi and WIDTH.get(base.ty):
                ext = list(bb[:len(bits)])
                if len(ext) < len(bits):
                    s = 0 if r[0] >= 0 else 1 if r[1] < 0 else bb[-1]
                    ext += [s] * (len(bits) - len(ext))
                if tuple(ext) == bits: return CAST(base, base.ty, t)
    return mk('bitv', bits, t, ty=t)

# ---------------------------------------------------------------- bit streams
RD = "bitreader::BitReader::<'a>::"
WR = 'rust_bitwriter::BitWriter::'
class Stream:
    """Policy: writer operations append to `out`, reader operations consume `inp`."""
    def __init__(self, D, inp=None, pos0=0):
        self.D, self.inp, self.out, self.pos = D, list(inp) if inp is not None else None, [], 0
        self.pos0 = pos0
        self.trace = []
        self.fresh = 0
        self.eof = False; self.posused = False
    def policy(self, c):
        p = c.path
        D = self.D
        if p.startswith(WR):
            m = p[len(WR):]
            I = c.I
            def const(i):
                r = D.rng(c.val(i))
                if not r or r[0] != r[1]: raise Imprecise('bit count %s at %s' % (show(c.val(i), 4), c.site()))
                return r[0]
            if m in ('write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_i8', 'write_i16', 'write_i32', 'write_i64', 'write_unsigned_bits', 'write_signed_bits'):
                v = c.val(1); n = const(2)
                signed = m.startswith('write_i') or m == 'write_signed_bits'
                if m in ('write_unsigned_bits', 'write_signed_bits'): mx = const(3)
                else: mx = int(m[7:])
                if n > mx: 
                    self.trace.append(('toomany', c.site()))
                    return ERR(mk('app', 'TooManyBits'))
                b = list(D.bits(v))
                if not signed or n >= len(b): b = (b + [0] * 64)[:n] if not signed else (b + [b[-1]] * 64)[:n]
                else:
                    # rust_bitwriter forces the sign into bit n-1
                    s = b[-1]
                    r = D.rng(v)
                    if r and r[0] >= 0: s = 0
                    elif r and r[1] < 0: s = 1
                    b = b[:n]
                    if n: b[n - 1] = s if r and not (r[0] >= -(1 << (n - 1)) and r[1] < (1 << (n - 1))) else b[n - 1]
                self.out += b[::-1]
                self.trace.append(('w', n, v, c.site()))
                return OK(UNIT())
            if m == 'write_bool':
                v = c.val(1)
                b = D.bits(v)
                self.out.append(b[0] if b else (v, 0))
                return OK(UNIT())
            if m == 'skip':
                n = const(1); self.out += [0] * n; return OK(UNIT())
            if m == 'bit_count': return self.at(len(self.out))
            return None
        if p.startswith(RD):
            m = p[len(RD):]
            def const(i):
                r = D.rng(c.val(i))
                if not r or r[0] != r[1]: raise Imprecise('bit count %s at %s' % (show(c.val(i), 4), c.site()))
                return r[0]
            if m in ('read_u8', 'read_u16', 'read_u32', 'read_u64', 'read_i8', 'read_i16', 'read_i32', 'read_i64'):
                n = const(1); mx = int(m[6:]); t = m[5:]
                if n > mx: return ERR(mk('app', 'TooManyBits'))
                b = self.take(n)
                if b is None: return ERR(mk('app', 'Eof'))
                b = b[::-1]
                if t in SIGNED: b = b + [b[-1] if b else 0] * (mx - n)
                else: b = b + [0] * (mx - n)
                return OK(recompose(D, b, t))
            if m == 'read_bool':
                b = self.take(1)
                if b is None: return ERR(mk('app', 'Eof'))
                if b[0] in (0, 1): return OK(BOOL(b[0]))
                if b[0][0].ty == 'bool': return OK(b[0][0])
                return OK(mk('bitv', (b[0],), 'bool', ty='bool'))
            if m == 'read_u8_slice':
                v = c.load(1)
                n = D.rng(LEN(v))
                if not n or n[0] != n[1]: raise Imprecise('slice length')
                out = []
                for i in range(n[0]):
                    b = self.take(8)
                    if b is None: return ERR(mk('app', 'Eof'))
                    out.append(recompose(D, b[::-1], 'u8'))
                c.store(1, collapse(mk('arr', *out)))
                return OK(UNIT())
            if m == 'remaining':
                return INT(len(self.inp) - self.pos, 'u64')
            if m == 'position': return self.at(self.pos)
            if m == 'skip':
                n = const(1)
                if self.take(n) is None: return ERR(mk('app', 'Eof'))
                return OK(UNIT())
            return None
        return None
    def at(self, k):
        self.posused = True
        if isinstance(self.pos0, N): return BIN('Add', self.pos0, INT(k, 'u64'), 'u64') if k else self.pos0
        return INT(self.pos0 + k, 'u64')
    def take(self, n):
        if self.pos + n > len(self.inp): self.eof = True; return None
        r = self.inp[self.pos:self.pos + n]; self.pos += n
        return list(r)

def collapse(a):
    """[X[0], X[1], .., X[n-1]] with len(X) = n  ->  X"""
    if a.op == 'arr' and a.a:
        x = a.a[0]
        if x.op == 'fld' and x.a[1][0] == 'i':
            X = x.a[0]
            if all(e.op == 'fld' and e.a[0] is X and e.a[1] == ('i', INT(i, 'usize')) for i, e in enumerate(a.a)):
                n = LEN(X)
                if isint(n) and n.a[0] == len(a.a): return X
    return a

class Outcome:
    pass

def run_fn(F, body, args, D, stream, tsub=None, env=None):
    """Interpret body with everything decided by D.  Returns Outcome(kind='ok'|'err'|'panic'|'ret', value, ...)."""
    I = Interp(F, policy=stream.policy if stream else None)
    I.decide_hook = lambda st, c: D.decide(c)
    I.force_unroll = True
    st = State()
    fr = I.new_frame(body, tsub or {}, 0)
    for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
    if env: st.env.update(env)
    outs = I.run(fr, 0, {}, st)
    o = Outcome(); o.I = I; o.value = None; o.kind = None; o.panics = []
    s = outs.get('ret')
    def flat(eff):
        for e in eff:
            if e[0] == 'call': yield from flat(e[3])
            else: yield e
    effs = list(flat(s.eff if s is not None else st.eff))
    o.unknown = dict(I.unknown)
    for e in effs:
        if e[0] == 'panic':
            d = D.decide(e[1])
            if d is True: o.panics.append((e[2], e[3], show(e[1], 5)))
            elif d is None: raise Imprecise('undecided panic %s at %s: %s' % (e[2], e[3], show(e[1], 6)))
        elif e[0] in ('if', 'guard', 'panicpath', 'loop', 'fail'):
            c = e[1] if e[0] != 'loop' else None
            d = D.decide(c) if c is not None else None
            if e[0] == 'fail' and d is not None:
                if d: o.kind = 'err'
                continue
            raise Imprecise('undecided %s at %s: %s' % (e[0], body.path, show(c, 6) if c is not None else 'loop'))
    if o.panics: o.kind = 'panic'; return o
    if s is None: o.kind = 'panic'; o.panics.append(('diverges', body.path, '')); return o
    v = s.env.get(('L', fr.fid, 0), UNIT())
    v = I.simp_top(s, v)
    o.state = s
    rty = body.locals[0]
    if rty and rty[0] == 'adt' and rty[1] == RESULT:
        k = DISCR(v, {'variants': [{'discr': '0'}, {'discr': '1'}]})
        d = D.decide(BIN('Eq', k, INT(0, 'i128'), 'bool'))
        if d is None: raise Imprecise('undecided result of %s: %s' % (body.path, show(v, 5)))
        if d: o.kind = o.kind or 'ok'; o.value = PROJ(v, ('f', 0, 0))
        else: o.kind = 'err'; o.value = PROJ(v, ('f', 1, 0))
    else: o.kind = 'ret'; o.value = v
    return o
