"""Hash-consed value terms (global value numbering) with local simplification."""
import itertools

class N:
    __slots__ = ('op', 'a', 'ty', 'id', '_k')
    def __repr__(self): return show(self, 6)

_tab = {}
_ids = itertools.count()

def mk(op, *a, ty=None):
    k = (op,) + a
    n = _tab.get(k)
    if n is None:
        n = N(); n.op = op; n.a = a; n.ty = ty; n.id = next(_ids); n._k = None
        _tab[k] = n
    elif n.ty is None and ty is not None:
        n.ty = ty
    return n

def reset():
    _tab.clear()

WIDTH = {'u8':8,'u16':16,'u32':32,'u64':64,'u128':128,'usize':64,'i8':8,'i16':16,'i32':32,'i64':64,'i128':128,'isize':64,'bool':1,'char':32}
SIGNED = {'i8','i16','i32','i64','i128','isize'}
def rng(t):
    w = WIDTH[t]
    if t in SIGNED: return (-(1 << (w-1)), (1 << (w-1)) - 1)
    return (0, (1 << w) - 1)
def wrap(v, t):
    w = WIDTH[t]
    v &= (1 << w) - 1
    if t in SIGNED and v >> (w-1): v -= 1 << w
    return v
def tystr(t):
    """scalar type name of a fact type, or None"""
    if t is None: return None
    if t[0] in ('int',): return t[1]
    if t[0] in ('bool','char'): return t[0]
    if t[0] == 'float': return t[1]
    return None

def INT(v, t): return mk('int', wrap(v, t) if t in WIDTH else v, t, ty=t)
TRUE = INT(1, 'bool'); FALSE = INT(0, 'bool')
def BOOL(b): return TRUE if b else FALSE
def reinit():
    global TRUE, FALSE
    reset()
    TRUE = INT(1,'bool'); FALSE = INT(0,'bool')
UNDEF_OP = 'undef'
def UNDEF(): return mk('undef')
def SYM(name, ty=None): return mk('sym', name, ty=ty)
def isint(n): return n.op == 'int'

def NOT(c):
    if c.op == 'int': return BOOL(not c.a[0])
    if c.op == 'not': return c.a[0]
    if c.op == 'ite' and (c.a[1].op == 'int' or c.a[2].op == 'int'): return ITE(c.a[0], NOT(c.a[1]), NOT(c.a[2]))
    if c.op == 'bin' and c.a[0] in ('Lt', 'Le') and c.a[1].ty in WIDTH:
        return BIN('Le' if c.a[0] == 'Lt' else 'Lt', c.a[2], c.a[1], 'bool')
    return mk('not', c, ty='bool')

def AND(a, b): return ITE(a, b, BOOL(False))
def OR(a, b): return ITE(a, BOOL(True), b)

def ITE(c, a, b):
    if c.op == 'int': return a if c.a[0] else b
    if a is b: return a
    if c.op == 'not': return ITE(c.a[0], b, a)
    if a.op == 'undef': return b
    if b.op == 'undef': return a
    if a.ty == 'bool' and a.op == 'int' and b.op == 'int':
        return c if a.a[0] else NOT(c)
    # nested same condition
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    # bool shape: c ? true : b where b implied etc. left alone
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a):
        return mk('adt', a.a[0], a.a[1], *[ITE(c, x, y) for x, y in zip(a.a[2:], b.a[2:])], ty=a.ty)
    if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
        return mk('tuple', *[ITE(c, x, y) for x, y in zip(a.a, b.a)], ty=a.ty)
    if a.op == 'with' or b.op == 'with':
        ba = a.a[0] if a.op == 'with' else a
        bb = b.a[0] if b.op == 'with' else b
        if ba is bb:
            da = dict(a.a[1]) if a.op == 'with' else {}
            db = dict(b.a[1]) if b.op == 'with' else {}
            r = ba
            for k in list(da) + [k for k in db if k not in da]:
                r = WITH(r, k, ITE(c, da[k] if k in da else PROJ(ba, k), db[k] if k in db else PROJ(ba, k)))
            return r
    return mk('ite', c, a, b, ty=a.ty or b.ty)

# ---------------------------------------------------------------- aggregates
# projection keys: ('f', variant or None, index) | ('i', N) | ('*',)
def PROJ(v, k, ty=None):
    o = v.op
    if o == 'ite':
        return ITE(v.a[0], PROJ(v.a[1], k, ty), PROJ(v.a[2], k, ty))
    if o == 'undef': return v
    if o == 'with':
        for kk, x in v.a[1]:
            if kk == k: return x
            if kk[0] == 'i' and k[0] == 'i' and not (isint(kk[1]) and isint(k[1])):
                return mk('fld', v, k, ty=ty)     # may alias
        return PROJ(v.a[0], k, ty)
    if k[0] == 'f':
        if o == 'adt':
            if k[1] is not None and v.a[1] != k[1]: return UNDEF()
            return v.a[2 + k[2]] if len(v.a) > 2 + k[2] else UNDEF()
        if o in ('tuple', 'closure_up'): return v.a[k[2]]
        if o == 'res':        # Result of a fallible operation: ('res', id, okvalue)
            if k[1] == 0: return v.a[1]
            return mk('errv', v.a[0])
        if o == 'ovf':        # (value, overflow flag)
            return v.a[k[2]]
    if k[0] == 'i':
        if o == 'arr' and isint(k[1]):
            i = k[1].a[0]
            return v.a[i] if 0 <= i < len(v.a) else UNDEF()
        if o == 'repeat': return v.a[0]
        if o == 'push':
            n = LEN(v.a[0])
            if k[1] is n: return v.a[1]
            if isint(n) and isint(k[1]):
                return v.a[1] if n.a[0] == k[1].a[0] else PROJ(v.a[0], k, ty)
        if o == 'vecnew': return UNDEF()
        if o == 'build' and v.a[0].op == 'vecnew' and v.a[2].a[0] is not None: return subst(v.a[2].a[1], {v.a[2].a[0]: CAST(k[1], k[1].ty, v.a[2].a[0].ty) if v.a[2].a[0].ty != k[1].ty else k[1]})
        if o == 'subslice': return PROJ(v.a[0], ('i', BIN('Add', v.a[1], k[1], 'usize')), ty)
        if o == 'as_slice' or o == 'bytes_of': pass
    if k[0] == '*':
        if o == 'box': return v.a[0]
    return mk('fld', v, k, ty=ty)

def WITH(base, k, val):
    o = base.op
    if o == 'adt' and k[0] == 'f' and (k[1] is None or k[1] == base.a[1]):
        l = list(base.a); 
        while len(l) <= 2 + k[2]: l.append(UNDEF())
        l[2 + k[2]] = val
        return mk('adt', *l, ty=base.ty)
    if o == 'tuple' and k[0] == 'f':
        l = list(base.a)
        while len(l) <= k[2]: l.append(UNDEF())
        l[k[2]] = val
        return mk('tuple', *l, ty=base.ty)
    if o == 'arr' and k[0] == 'i' and isint(k[1]) and 0 <= k[1].a[0] < len(base.a):
        l = list(base.a); l[k[1].a[0]] = val
        return mk('arr', *l, ty=base.ty)
    if o == 'push' and k[0] == 'i' and isint(k[1]):
        n = LEN(base.a[0])
        if isint(n):
            if n.a[0] == k[1].a[0]: return PUSH(base.a[0], val)
            if k[1].a[0] < n.a[0]: return PUSH(WITH(base.a[0], k, val), base.a[1])
    if o == 'box' and k[0] == '*': return mk('box', val, ty=base.ty)
    if o == 'res' and k[0] == 'f' and k[1] == 0: return mk('res', base.a[0], val, ty=base.ty)
    if o == 'ite':
        # keep gated structure: update both arms
        if k[0] == 'f' and k[1] is not None:
            return ITE(base.a[0], WITH(base.a[1], k, val), WITH(base.a[2], k, val))
    if o == 'with':
        b0, items = base.a
        d = dict(items)
        if k[0] == 'i' and not isint(k[1]):
            # symbolic index: only keep the same index, others stay underneath
            if any(kk[0] == 'i' and kk != k for kk in d):
                return mk('with', base, ((k, val),), ty=base.ty)
        elif k[0] == 'i' and any(kk[0] == 'i' and not isint(kk[1]) for kk in d):
            return mk('with', base, ((k, val),), ty=base.ty)
    else:
        b0, d = base, {}
    if o == 'undef' : pass
    elif PROJ(b0, k) is val:
        d.pop(k, None)
    else:
        d[k] = val
        return mk('with', b0, tuple(sorted(d.items(), key=lambda kv: _keykey(kv[0]))), ty=base.ty)
    if o == 'undef':
        d[k] = val
        return mk('with', b0, tuple(sorted(d.items(), key=lambda kv: _keykey(kv[0]))), ty=base.ty)
    if not d: return b0
    return mk('with', b0, tuple(sorted(d.items(), key=lambda kv: _keykey(kv[0]))), ty=base.ty)

def _keykey(k):
    return tuple((0, x) if isinstance(x, int) else (2, x.id) if isinstance(x, N) else (1, str(x)) for x in k)

def ITER(n, i, p, nx, init):
    """value of p after n times p = nx(p, i), starting at init; bound variables are canonical"""
    d = 0
    for y in walk(nx):
        if y.op == 'iter': d = max(d, 1 + y.a[4])
    P, I = SYM('P#%d' % d, p.ty), SYM('I#%d' % d, i.ty)
    return mk('iter', n, I, P, subst(nx, {p: P, i: I}), d, init, ty=p.ty)

def PUSH(v, x): return mk('push', v, x, ty=v.ty)
def LEN(v):
    o = v.op
    if o == 'arr': return INT(len(v.a), 'usize')
    if o == 'vecnew': return INT(0, 'usize')
    if o == 'push': return BIN('Add', LEN(v.a[0]), INT(1, 'usize'), 'usize')
    if o == 'repeat': return v.a[1]
    if o in ('filled', 'nelems'): return v.a[1]
    if o == 'build': return BIN('Add', LEN(v.a[0]), v.a[1], 'usize')
    if o == 'str': return INT(len(v.a[0].encode()), 'usize')
    if o == 'ite': return ITE(v.a[0], LEN(v.a[1]), LEN(v.a[2]))
    if o == 'with' and all(k[0] == 'i' for k, _ in v.a[1]): return LEN(v.a[0])
    if o == 'subslice': return BIN('Sub', v.a[2], v.a[1], 'usize')
    if o == 'app' and v.a[0] in ('as_bytes', 'to_vec', 'utf8'): return LEN(v.a[1])
    if o == 'app' and v.a[0].endswith('::to_be_bytes'): return INT(int(v.a[0][1:3]) // 8, 'usize')
    return mk('len', v, ty='usize')

def DISCR(v, adt=None):
    """discriminant value of v; adt is the ADT fact dict"""
    o = v.op
    if o == 'adt':
        return INT(_discr_of(v, adt), 'i128')
    if o == 'ite': return ITE(v.a[0], DISCR(v.a[1], adt), DISCR(v.a[2], adt))
    if o == 'res': return ITE(mk('isok', v.a[0], ty='bool'), INT(0, 'i128'), INT(1, 'i128'))
    if o == 'undef': return v
    if o == 'with': return DISCR(v.a[0], adt)
    two = None
    if adt is not None:
        two = tuple(int(x['discr']) for x in adt['variants'])
    return mk('discr', v, two, ty='i128')
_discr_tab = {}
def register_adts(adts):
    _discr_tab.clear()
    for p, a in adts.items():
        if a['kind'] == 'enum': _discr_tab[p] = [int(v['discr']) for v in a['variants']]
def _discr_of(v, adt):
    t = _discr_tab.get(v.a[0])
    return t[v.a[1]] if t else v.a[1]

def ADT(path, variant, fields, ty=None): return mk('adt', path, variant, *fields, ty=ty)
OPTION = 'core::option::Option'; RESULT = 'core::result::Result'; CF = 'core::ops::control_flow::ControlFlow'
def SOME(x): return ADT(OPTION, 1, (x,))
def NONE(): return ADT(OPTION, 0, ())
def OK(x): return ADT(RESULT, 0, (x,))
def ERR(x): return ADT(RESULT, 1, (x,))
UNIT_T = ('tuple', ())
def UNIT(): return mk('tuple')

# ---------------------------------------------------------------- integers
COMM = {'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq'}
FLOATS = {'f32', 'f64', 'f16', 'f128'}

def BIN(op, x, y, ty):
    if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'): op = op[:-9]
    if op == 'Ne': return NOT(BIN('Eq', x, y, 'bool'))
    if op == 'Gt': return BIN('Lt', y, x, 'bool')
    if op == 'Ge': return BIN('Le', y, x, 'bool')
    if x.op == 'undef' or y.op == 'undef': return UNDEF()
    xi, yi = isint(x), isint(y)
    if xi and yi and x.a[1] not in FLOATS:
        a, b = x.a[0], y.a[0]
        t = x.a[1]
        if op == 'Eq': return BOOL(a == b)
        if op == 'Lt': return BOOL(a < b)
        if op == 'Le': return BOOL(a <= b)
        if op == 'Add': return INT(a + b, t)
        if op == 'Sub': return INT(a - b, t)
        if op == 'Mul': return INT(a * b, t)
        if op == 'BitAnd': return INT(a & b, t)
        if op == 'BitOr': return INT(a | b, t)
        if op == 'BitXor': return INT(a ^ b, t)
        if op == 'Shl': return INT(a << (b % WIDTH[t]), t)
        if op == 'Shr': return INT(a >> (b % WIDTH[t]), t)
        if op == 'Div' and b: return INT(abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), t)
        if op == 'Rem' and b: return INT(abs(a) % abs(b) * (1 if a >= 0 else -1), t)
    # distribute over ite with constant arms (keeps conditions canonical)
    if op in ('Eq', 'Lt', 'Le'):
        if x.op == 'ite' and yi and (isint(x.a[1]) or isint(x.a[2])):
            return ITE(x.a[0], BIN(op, x.a[1], y, ty), BIN(op, x.a[2], y, ty))
        if y.op == 'ite' and xi and (isint(y.a[1]) or isint(y.a[2])):
            return ITE(y.a[0], BIN(op, x, y.a[1], ty), BIN(op, x, y.a[2], ty))
    t = x.ty or y.ty
    if op == 'Eq':
        if x is y and t not in FLOATS: return BOOL(True)
        for p, q in ((x, y), (y, x)):
            if isint(q) and q.a[0] == 0 and p.op == 'bin' and p.a[0] == 'Add' and isint(p.a[2]) and p.a[2].a[0] > 0 and _isq(p): return BOOL(False)
        if t == 'bool':
            if yi: return x if y.a[0] else NOT(x)
            if xi: return y if x.a[0] else NOT(y)
        # Eq of lossless cast with a constant
        for p, q in ((x, y), (y, x)):
            if isint(q) and p.op == 'cast' and p.a[0].ty in WIDTH and p.ty in WIDTH:
                f = p.a[0].ty
                lo, hi = rng(f)
                if q.a[0] in (lo, hi) or lo <= q.a[0] <= hi:
                    if rng(p.ty)[0] <= lo and hi <= rng(p.ty)[1]:
                        return BIN('Eq', p.a[0], INT(q.a[0], f), 'bool')
                elif rng(p.ty)[0] <= lo and hi <= rng(p.ty)[1]:
                    return BOOL(False)
            if isint(q) and p.op == 'cast' and p.a[0].op == 'discr' and p.a[0].a[1] and p.ty in WIDTH and all(rng(p.ty)[0] <= k <= rng(p.ty)[1] for k in p.a[0].a[1]):
                return BIN('Eq', p.a[0], INT(q.a[0], p.a[0].ty), 'bool')
            if isint(q) and p.op == 'discr' and p.a[1]:
                if q.a[0] not in p.a[1]: return BOOL(False)
                if len(p.a[1]) == 2 and q.a[0] == p.a[1][0]:
                    return NOT(mk('bin', 'Eq', p, INT(p.a[1][1], p.ty), ty='bool'))
                if len(p.a[1]) == 1: return BOOL(True)
        # casts of equal source type on both sides
        if x.op == 'cast' and y.op == 'cast' and x.a[0].ty == y.a[0].ty and x.a[0].ty in WIDTH and x.ty in WIDTH:
            if WIDTH[x.ty] >= WIDTH[x.a[0].ty]: return BIN('Eq', x.a[0], y.a[0], 'bool')
    if op in ('Lt', 'Le') and t in WIDTH:
        if x is y: return BOOL(op == 'Le')
        if y.op == 'bin' and y.a[0] == 'Add' and y.a[1] is x and isint(y.a[2]) and y.a[2].a[0] > 0 and _isq(x): return BOOL(True)
        if x.op == 'bin' and x.a[0] == 'Add' and x.a[1] is y and isint(x.a[2]) and x.a[2].a[0] > 0 and _isq(y): return BOOL(False)
        if xi or yi:
            lo, hi = rng(t)
            if op == 'Lt':
                if xi and x.a[0] == lo and t not in SIGNED: return NOT(BIN('Eq', y, x, 'bool'))
                if yi and y.a[0] == lo: return BOOL(False)
                if xi and x.a[0] == hi: return BOOL(False)
                if yi and y.a[0] == hi: return NOT(BIN('Eq', x, y, 'bool'))
                # canonical: Le with constant
                if yi: return BIN('Le', x, INT(y.a[0] - 1, t), 'bool')
                if xi: return BIN('Le', INT(x.a[0] + 1, t), y, 'bool')
            else:
                if xi and x.a[0] == lo: return BOOL(True)
                if yi and y.a[0] == hi: return BOOL(True)
                if yi and y.a[0] == lo: return BIN('Eq', x, y, 'bool')
                if xi and x.a[0] == hi: return BIN('Eq', y, x, 'bool')
                if xi and x.a[0] == lo + 1: return NOT(BIN('Eq', y, INT(lo, t), 'bool'))
                if xi:   # c <= y  ==  not (y <= c-1)
                    return mk('not', mk('bin', 'Le', y, INT(x.a[0] - 1, t), ty='bool'), ty='bool')
    if op == 'Lt' and t in WIDTH and not xi and not yi:
        # canonical: a < b  ==  not (b <= a)
        return mk('not', mk('bin', 'Le', y, x, ty='bool'), ty='bool')
    if t not in FLOATS:
        if op == 'Add':
            if xi and x.a[0] == 0: return y
            if yi and y.a[0] == 0: return x
            if x.op == 'bin' and x.a[0] == 'Add' and isint(x.a[2]) and yi and x.ty == ty:
                return BIN('Add', x.a[1], INT(x.a[2].a[0] + y.a[0], ty), ty)
            if x.op == 'bin' and x.a[0] == 'Sub' and x.a[2] is y: return x.a[1]
            if y.op == 'bin' and y.a[0] == 'Sub' and y.a[2] is x: return y.a[1]
            if x.op == 'bin' and x.a[0] == 'Sub' and isint(x.a[2]) and yi and x.ty == ty:
                d = y.a[0] - x.a[2].a[0]
                return BIN('Add', x.a[1], INT(d, ty), ty) if d >= 0 else BIN('Sub', x.a[1], INT(-d, ty), ty)
        if op == 'Sub':
            if yi and y.a[0] == 0: return x
            if x is y: return INT(0, ty)
            if x.op == 'bin' and x.a[0] == 'Add':
                if x.a[1] is y: return x.a[2]
                if x.a[2] is y: return x.a[1]
                if isint(x.a[2]) and yi and x.ty == ty:
                    d = x.a[2].a[0] - y.a[0]
                    return BIN('Add', x.a[1], INT(d, ty), ty) if d >= 0 else BIN('Sub', x.a[1], INT(-d, ty), ty)
            if x.op == 'bin' and x.a[0] == 'Sub' and isint(x.a[2]) and yi and x.ty == ty:
                d = x.a[2].a[0] + y.a[0]
                return BIN('Sub', x.a[1], INT(d, ty), ty)
        if op == 'Mul':
            for p, q in ((x, y), (y, x)):
                if isint(p) and p.a[0] == 1: return q
                if isint(p) and p.a[0] == 0: return p
        if op in ('Shl', 'Shr') and yi and y.a[0] == 0: return x
        if op == 'BitOr':
            if xi and x.a[0] == 0: return y
            if yi and y.a[0] == 0: return x
            if x is y: return x
        if op == 'BitAnd':
            for p, q in ((x, y), (y, x)):
                if isint(p) and p.a[0] == 0: return p
                if isint(p) and ty in WIDTH and wrap(p.a[0], ty) == wrap(-1, ty): return q
            if x is y: return x
            if ty == 'bool': return AND(x, y)
        if op == 'BitOr' and ty == 'bool': return OR(x, y)
        if op == 'BitXor':
            if xi and x.a[0] == 0: return y
            if yi and y.a[0] == 0: return x
        if op == 'Div' and yi and y.a[0] == 1: return x
        # x = 8q + k without overflow, 0 <= k < 8
        if x.op == 'dm' and yi:
            q, k = x.a[0], x.a[1]; c = y.a[0]
            if op == 'Div' and c == 8 or op == 'Shr' and c == 3: return q
            if op == 'Rem' and c == 8 or op == 'BitAnd' and c == 7: return INT(k, ty)
            if op == 'Add': return DM(BIN('Add', q, INT((k + c) // 8, ty), ty), (k + c) % 8, ty)
            if op == 'Eq' and c % 8 != k: return BOOL(False)
        if y.op == 'dm' and xi and op in ('Add', 'BitAnd', 'Eq'): return BIN(op, y, x, ty)
        if x.op == 'dm' and y.op == 'dm' and op == 'Eq': return BIN('Eq', x.a[0], y.a[0], 'bool') if x.a[1] == y.a[1] else BOOL(False)
        if op == 'Sub' and x.op == 'dm' and y.op == 'dm' and x.a[0] is y.a[0] and x.a[1] >= y.a[1]: return INT(x.a[1] - y.a[1], ty)
        if op == 'Mul' and yi and y.a[0] == 8 and getattr(x, 'ty', None) in WIDTH and _isq(x): return DM(x, 0, ty)
    if op in COMM:
        # canonical operand order: constants last, then by id
        if (isint(x), x.id) > (isint(y), y.id): x, y = y, x
    return mk('bin', op, x, y, ty=ty)

def DM(q, k, ty): return mk('dm', q, k, ty=ty)
def _isq(x):
    while x.op == 'cast' or x.op == 'bin' and x.a[0] == 'Add' and isint(x.a[2]): x = x.a[0] if x.op == 'cast' else x.a[1]
    return x.op == 'sym' and str(x.a[0]).startswith('quot@')

def UN(op, x, ty):
    if op == 'Not':
        if ty == 'bool': return NOT(x)
        if isint(x): return INT(~x.a[0], ty)
        if x.op == 'un' and x.a[0] == 'Not': return x.a[1]
    if op == 'Neg':
        if isint(x) and ty not in FLOATS: return INT(-x.a[0], ty)
        if x.op == 'un' and x.a[0] == 'Neg': return x.a[1]
    if x.op == 'undef': return x
    return mk('un', op, x, ty=ty)

def CAST(x, frm, to):
    """numeric cast between scalar type names"""
    if x.op == 'undef': return x
    if isint(x) and frm not in FLOATS and to in WIDTH: return INT(x.a[0], to)
    if frm == to and frm is not None: return x
    if x.op == 'ite' and (isint(x.a[1]) or isint(x.a[2])):
        return ITE(x.a[0], CAST(x.a[1], frm, to), CAST(x.a[2], frm, to))
    if x.op == 'dm' and to in WIDTH and frm in WIDTH and rng(to)[1] >= rng(frm)[1]: return DM(CAST(x.a[0], frm, to), x.a[1], to)
    if x.op == 'bin' and x.a[0] == 'Add' and isint(x.a[2]) and to in WIDTH and frm in WIDTH and rng(to)[1] >= rng(frm)[1] and _isq(x): return BIN('Add', CAST(x.a[1], frm, to), INT(x.a[2].a[0], to), to)
    # same-width reinterpretation of wrapping arithmetic on reinterpreted operands
    if x.op == 'bin' and x.a[0] in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and to in WIDTH and x.ty in WIDTH and WIDTH[to] == WIDTH[x.ty] \
       and any(o.op == 'cast' and o.a[0].ty == to for o in x.a[1:3]):
        return BIN(x.a[0], CAST(x.a[1], x.ty, to), CAST(x.a[2], x.ty, to), to)
    if x.op == 'cast' and x.ty in WIDTH and to in WIDTH and x.a[0].ty in WIDTH:
        f0 = x.a[0].ty
        w0, w1, w2 = WIDTH[f0], WIDTH[x.ty], WIDTH[to]
        # inner is lossless value-preserving (or same-width/extension): compose
        lo, hi = rng(f0); lo1, hi1 = rng(x.ty)
        if lo1 <= lo and hi <= hi1:
            return CAST(x.a[0], f0, to)
        if w2 <= w1:      # truncating the result again: only low bits matter
            return CAST(x.a[0], f0, to)
    return mk('cast', x, to, ty=to)

def APP(f, *args, ty=None): return mk('app', f, *args, ty=ty)

# ---------------------------------------------------------------- substitution / traversal
def children(n):
    for x in n.a:
        if isinstance(x, N): yield x
        elif isinstance(x, tuple):
            yield from _tupn(x)
def _tupn(t):
    for x in t:
        if isinstance(x, N): yield x
        elif isinstance(x, tuple): yield from _tupn(x)

def rebuild(n, f):
    """Rebuild node with children mapped by f, re-simplifying."""
    def m(x):
        if isinstance(x, N): return f(x)
        if isinstance(x, tuple): return tuple(m(y) for y in x)
        return x
    a = tuple(m(x) for x in n.a)
    if a == n.a: return n
    o = n.op
    if o == 'bin': return BIN(a[0], a[1], a[2], n.ty)
    if o == 'un': return UN(a[0], a[1], n.ty)
    if o == 'not': return NOT(a[0])
    if o == 'ite': return ITE(*a)
    if o == 'cast': return CAST(a[0], a[0].ty or n.a[0].ty, a[1])
    if o == 'fld': return PROJ(a[0], a[1], n.ty)
    if o == 'len': return LEN(a[0])
    if o == 'discr':
        if a[0].op == 'discr' or a[0].op == n.op: pass
        r = DISCR(a[0])
        if r.op == 'discr': return mk('discr', a[0], n.a[1], ty=n.ty)
        return r
    if o == 'with':
        r = a[0]
        for k, v in a[1]: r = WITH(r, k, v)
        return r
    if o == 'push': return PUSH(*a)
    return mk(o, *a, ty=n.ty)

def subst(n, m, memo=None):
    if memo is None: memo = {}
    def go(x):
        r = m.get(x)
        if r is not None: return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r is not x and r in m: r = m[r]
            memo[x] = r
        return r
    return go(n)

def walk(n, seen=None):
    if seen is None: seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(children(x))

def show(n, d=8):
    if not isinstance(n, N):
        if isinstance(n, tuple): return '(' + ','.join(show(x, d) for x in n) + ')'
        return str(n)
    if d == 0: return '…'
    o = n.op
    if o == 'int': return '%s' % (n.a[0],) if n.a[1] != 'bool' else ('true' if n.a[0] else 'false')
    if o == 'sym': return str(n.a[0]).split('@')[0]
    if o == 'deref' and n.a[0].op == 'sym': return '*' + str(n.a[0].a[0]).split('@')[0]
    if o == 'fld':
        k = n.a[1]
        return show(n.a[0], d) + ('.%s' % k[2] if k[0] == 'f' and k[1] is None else '.v%s.%s' % (k[1], k[2]) if k[0] == 'f' else '[%s]' % show(k[1], d-1) if k[0] == 'i' else '.*')
    if o == 'bin': return '(%s %s %s)' % (show(n.a[1], d-1), {'Add':'+','Sub':'-','Mul':'*','Eq':'==','Le':'<=','Lt':'<','BitAnd':'&','BitOr':'|','Shl':'<<','Shr':'>>','Div':'/','Rem':'%'}.get(n.a[0], n.a[0]), show(n.a[2], d-1))
    if o == 'cast': return '(%s as %s)' % (show(n.a[0], d-1), n.a[1])
    if o == 'not': return '!' + show(n.a[0], d-1)
    if o == 'ite': return '(%s ? %s : %s)' % tuple(show(x, d-1) for x in n.a)
    if o == 'adt':
        return '%s#%s%s' % (n.a[0].split('::')[-1], n.a[1], '(' + ', '.join(show(x, d-1) for x in n.a[2:]) + ')' if len(n.a) > 2 else '')
    if o == 'discr': return 'discr(%s)' % show(n.a[0], d-1)
    if o == 'ref': return '&%s%s' % (n.a[0], show(n.a[1], d-1))
    if o == 'with': return '%s{%s}' % (show(n.a[0], d-1), ', '.join('%s:=%s' % (show(k, d-1), show(v, d-1)) for k, v in n.a[1]))
    return '%s(%s)' % (o, ', '.join(show(x, d-1) for x in n.a))

def CONCAT(parts):
    """string concatenation, flattened, literals joined"""
    out = []
    for x in parts:
        for y in (x.a[1:] if x.op == 'app' and x.a[0] == 'concat' else (x,)):
            if y.op == 'str' and out and out[-1].op == 'str': out[-1] = mk('str', out[-1].a[0] + y.a[0])
            elif not (y.op == 'str' and y.a[0] == ''): out.append(y)
    if not out: return mk('str', '')
    return out[0] if len(out) == 1 else mk('app', 'concat', *out)
