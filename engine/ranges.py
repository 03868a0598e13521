"""Intervals of integer terms, from their structure and the facts assumed on the current path."""
from .terms import *
from . import terms as T

OPS = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr')
LENMAX = (1 << 63) - 1      # Vec and str never exceed isize::MAX bytes

def bits_up(v): return (1 << v.bit_length()) - 1 if v > 0 else 0

def arith(op, a, b, ty):
    """interval of the mathematical result of a op b (before wrapping), or None"""
    (al, ah), (bl, bh) = a, b
    if op == 'Add': return al + bl, ah + bh
    if op == 'Sub': return al - bh, ah - bl
    if op == 'Mul':
        p = (al * bl, al * bh, ah * bl, ah * bh); return min(p), max(p)
    if op == 'Div':
        if bl >= 1 and al >= 0: return al // bh, ah // bl
        return None
    if op == 'Rem':
        if bl >= 1 and al >= 0: return 0, min(ah, bh - 1)
        if al >= 0 and bl >= 0: return 0, min(ah, max(bh - 1, 0))
        return None
    if op == 'BitAnd':
        if al >= 0 and bl >= 0: return 0, min(ah, bh)
        if bl >= 0: return 0, bh
        if al >= 0: return 0, ah
        return None
    if op in ('BitOr', 'BitXor'):
        if al >= 0 and bl >= 0: return (max(al, bl) if op == 'BitOr' else 0), bits_up(max(ah, bh))
        return None
    w = T.WIDTH.get(ty)
    if op == 'Shl':
        if al >= 0 and 0 <= bl and w is not None and bh < w: return al << bl, ah << bh
        return None
    if op == 'Shr':
        if 0 <= bl and w is not None and bh < w:
            return (al >> bh if al >= 0 else al >> bl), (ah >> bl if ah >= 0 else ah >> bh)
        return None
    return None

def meet(a, b):
    if b is None: return a
    if a is None: return b
    r = (max(a[0], b[0]), min(a[1], b[1]))
    return r if r[0] <= r[1] else b

def interval(I, st, x, depth=8, memo=None):
    """[lo, hi] of x; gates are explored one by one near the top and joined below"""
    if x.op == 'int': return (x.a[0], x.a[0]) if not isinstance(x.a[0], float) else None
    r = _interval(I, st, x, 60, {}, 0)
    if depth > 0 and r is not None and any(y.op == 'ite' for y in x.a if isinstance(y, N)) or x.op == 'ite' and depth > 0:
        r = meet(r, _interval(I, st, x, 60, {}, min(depth, 4)))
    return r
def _interval(I, st, x, depth, memo, gates):
    if x.op == 'int': return (x.a[0], x.a[0]) if not isinstance(x.a[0], float) else None
    k = x if not gates else (x, gates)
    if k in memo: return memo[k]
    iv = st.pc.get(('iv', x))
    base = None
    ty = x.ty if x.ty in T.WIDTH else None
    if depth > 0 and (ty is not None or x.op in ('len', 'cast')):
        o = x.op
        if o == 'len': base = (0, LENMAX)
        elif o == 'cast':
            f = _interval(I, st, x.a[0], depth - 1, memo, gates)
            if f is not None and ty is not None:
                lo, hi = T.rng(ty)
                if lo <= f[0] and f[1] <= hi: base = f
        elif o == 'bin' and x.a[0] in OPS and ty is not None:
            a, b = _interval(I, st, x.a[1], depth - 1, memo, gates), _interval(I, st, x.a[2], depth - 1, memo, gates)
            if a is not None and b is not None:
                r = arith(x.a[0], a, b, ty)
                if r is not None:
                    lo, hi = T.rng(ty)
                    if lo <= r[0] and r[1] <= hi: base = r
                    elif x.a[0] == 'Sub' and r[1] <= hi and nowrap(I, st, x.a[1], x.a[2]): base = (max(r[0], 0), r[1])
        elif o == 'ite':
            d = I.decide(st, x.a[0])
            if d is not None: base = _interval(I, st, x.a[1] if d else x.a[2], depth - 1, memo, gates)
            else:
                if gates: a, b = _interval(I, gated(I, st, x.a[0], True), x.a[1], depth - 1, {}, gates - 1), _interval(I, gated(I, st, x.a[0], False), x.a[2], depth - 1, {}, gates - 1)
                else: a, b = _interval(I, st, x.a[1], depth - 1, memo, 0), _interval(I, st, x.a[2], depth - 1, memo, 0)
                if a is not None and b is not None: base = (min(a[0], b[0]), max(a[1], b[1]))
        elif I.rangehook is not None:
            base = I.rangehook(I, st, x, depth)
    r = meet(T.rng(ty) if ty is not None else None, meet(base, iv))
    memo[k] = r
    return r

def gated(I, st, c, val):
    from .interp import State
    s = State(st.env, [], dict(st.pc))
    I.assume(s, c, val)
    return s

def strip(x):
    while x.op == 'cast' and x.a[0].ty in T.WIDTH and x.ty in T.WIDTH and x.a[0].ty not in T.SIGNED and x.ty not in T.SIGNED and T.WIDTH[x.ty] >= T.WIDTH[x.a[0].ty]: x = x.a[0]
    return x

def nowrap(I, st, a, b):
    """b <= a for unsigned terms"""
    if a is b: return True
    sb, sa = strip(b), strip(a)
    if sb is sa: return True
    if sb.op == 'bin' and sb.ty not in T.SIGNED:
        if sb.a[0] == 'Rem' and (strip(sb.a[2]) is sa or strip(sb.a[1]) is sa): return True
        if sb.a[0] in ('Div', 'Shr') and strip(sb.a[1]) is sa: return True
        if sb.a[0] == 'BitAnd' and (strip(sb.a[1]) is sa or strip(sb.a[2]) is sa): return True
    if sb.op == 'ite':
        return nowrap(I, gated(I, st, sb.a[0], True), a, sb.a[1]) and nowrap(I, gated(I, st, sb.a[0], False), a, sb.a[2])
    if leq(I, st, b, a): return True
    return False

def leq(I, st, a, b):
    """is a <= b a fact of this path?"""
    if st.pc.get(mk('bin', 'Le', a, b, ty='bool')) is True: return True
    if st.pc.get(mk('bin', 'Le', b, a, ty='bool')) is False: return True
    return False

def overflow(I, st, op, a, b, ty):
    """does a op b leave the range of ty?  True / False / None"""
    if ty not in T.WIDTH: return None
    if op == 'Sub' and ty not in T.SIGNED and nowrap(I, st, a, b): return False
    x, y = interval(I, st, a), interval(I, st, b)
    if x is None or y is None: return None
    lo, hi = T.rng(ty)
    r = arith(op, x, y, ty)
    if r is not None:
        if lo <= r[0] and r[1] <= hi: return False
        if r[1] < lo or r[0] > hi: return True
    if op == 'Add':
        for p, q in ((a, b), (b, a)):
            if isint(q) and q.a[0] == 1 and below(st, p): return False
    if op == 'Sub' and isint(b) and b.a[0] == 1 and above(st, a): return False
    return None

def below(st, p):
    """p is known to be less than some value of its type"""
    for k, v in st.pc.items():
        if v is False and isinstance(k, N) and k.op == 'bin' and k.a[0] == 'Le' and k.a[2] is p: return True
        if v is True and isinstance(k, N) and k.op == 'bin' and k.a[0] == 'Lt' and k.a[1] is p: return True
    return False
def above(st, p):
    for k, v in st.pc.items():
        if v is False and isinstance(k, N) and k.op == 'bin' and k.a[0] == 'Le' and k.a[1] is p: return True
        if v is True and isinstance(k, N) and k.op == 'bin' and k.a[0] == 'Lt' and k.a[2] is p: return True
    return False
