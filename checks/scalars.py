"""W01 W02 W03 W05 (scalar part): per magnitude class abstract interpretation of the codecs' MIR."""
from engine import build
from engine.scalar import *
from engine.terms import *
from engine import terms as T

def fn(F, name, crate='zserio'):
    c = [b for p, b in F.bodies.items() if b.name == name and b.crate == crate and b.trait is None and '::tests::' not in p and '::test::' not in p]
    pub = [b for b in c if b.pub] or c
    return pub[0] if len(pub) >= 1 else None

def classes(lo, hi):
    """magnitude classes covering [lo, hi]"""
    out = []
    if lo <= 0 <= hi: out.append((0, 0))
    k = 0
    while (1 << k) <= hi:
        a, b = max(1 << k, lo), min((1 << (k + 1)) - 1, hi)
        if a <= b: out.append((a, b))
        k += 1
    k = 0
    while -(1 << k) >= lo:
        a, b = max(-(1 << (k + 1)) + 1, lo), min(-(1 << k), hi)
        if a <= b: out.append((a, b))
        k += 1
    # the type's minimum is a class of its own (its negation does not exist)
    r = []
    for a, b in out:
        if a < 0 and a == lo and a != b: r += [(a, a), (a + 1, b)]
        else: r.append((a, b))
    return r

class Codec:
    def __init__(self, name, ty, kind, n=None, maxbytes=None, lo=None, hi=None, w=None, r=None, s=None, extra=None):
        self.name, self.ty, self.kind, self.n, self.maxbytes = name, ty, kind, n, maxbytes
        full = T.rng(ty) if ty in WIDTH else None
        self.lo, self.hi = (lo, hi) if lo is not None else (full or (None, None))
        self.full = full
        self.w, self.r, self.s = w or 'write_' + name, r or 'read_' + name, s
        self.extra = extra or []
    @property
    def label(self): return self.name + ('<%d>' % self.n if self.extra else '')

def varint_cap(m): return 6 + 7 * (m - 2) + 8
def varuint_cap(m): return 7 * (m - 1) + 8

def codecs(widths):
    C = []
    for n in (8, 16, 32, 64):
        C.append(Codec('uint%d' % n, 'u%d' % n, 'fixed', n))
        C.append(Codec('int%d' % n, 'i%d' % n, 'fixed', n))
    for n in widths:
        C.append(Codec('unsigned_bits', 'u64', 'fixed', n, lo=0, hi=(1 << n) - 1, extra=[INT(n, 'u8')]))
        C.append(Codec('signed_bits', 'i64', 'fixed', n, lo=-(1 << (n - 1)), hi=(1 << (n - 1)) - 1, extra=[INT(n, 'u8')]))
    for nm, ty, m in (('varuint16', 'u16', 2), ('varuint32', 'u32', 4), ('varuint64', 'u64', 8), ('varuint', 'u64', 9)):
        C.append(Codec(nm, ty, 'varuint', maxbytes=m, lo=0, hi=min((1 << varuint_cap(m)) - 1, T.rng(ty)[1]), s=nm + '_bitsize'))
    C.append(Codec('varsize', 'u32', 'varuint', maxbytes=5, lo=0, hi=(1 << 31) - 1, s='varsize_bitsize'))
    for nm, ty, m in (('varint16', 'i16', 2), ('varint32', 'i32', 4), ('varint64', 'i64', 8), ('varint', 'i64', 9)):
        M = (1 << varint_cap(m)) - 1
        C.append(Codec(nm, ty, 'varint', maxbytes=m, lo=-M if m < 9 else -(1 << 63), hi=min(M, T.rng(ty)[1]), s=nm + '_bitsize'))
    return C

def refine(cls, f, budget=600):
    """run f on each class, bisecting classes the domain cannot decide"""
    todo = list(cls)[::-1]
    n = 0
    while todo:
        c = todo.pop()
        n += 1
        try:
            yield c, f(c), None
        except Imprecise as e:
            if c[0] == c[1] or n > budget: yield c, None, e
            else:
                m = (c[0] + c[1]) // 2
                todo += [(m + 1, c[1]), (c[0], m)]

def setup(cls, ty):
    if cls[0] == cls[1]: return INT(cls[0], ty), Dom()
    v = SYM('v:' + ty, ty)
    return v, Dom({v: cls})

def encode(F, cd, cls, wb):
    v, D = setup(cls, cd.ty)
    S = Stream(D)
    o = run_fn(F, wb, [SYM('writer'), v] + cd.extra, D, S)
    return v, D, S, o

def expected_bits(cd, D, v, cls):
    """wire bits the zserio format prescribes for a value of the class; MSB first"""
    if cd.kind == 'fixed':
        b = D.bits(v)
        return list(b[:cd.n])[::-1]
    if cd.kind == 'varint':
        if cls == (-(1 << 63), -(1 << 63)): return [1] + [0] * 7
        neg = cls[1] < 0
        if neg:
            mag = BIN('Sub', INT(0, 'i64'), CAST(v, v.ty, 'i64'), 'i64')
            hi = -cls[0]; lo = -cls[1]
            if cls[0] == cls[1]: mb = [(-cls[0] >> i) & 1 for i in range(64)]
            else:
                base = mk('neg', v)
                mb = [(base, i) for i in range(64)]
                for i in range(hi.bit_length(), 64): mb[i] = 0
                i = hi.bit_length() - 1
                while i >= 0 and (lo >> i) == (hi >> i): mb[i] = (lo >> i) & 1; i -= 1
        else:
            hi = cls[1]; mb = list(D.bits(v)) + [0] * 64
        first, m = 6, cd.maxbytes
    else:
        hi = cls[1]; mb = list(D.bits(v)) + [0] * 64; neg = False
        first, m = 7, cd.maxbytes
    k = hi.bit_length()
    nb = 1
    while k > (first + 7 * (nb - 1) if nb < m else first + 7 * (m - 2) + 8): nb += 1
    out = []
    full = nb == m
    total = first + 7 * (nb - 2) + 8 if full else first + 7 * (nb - 1)
    pos = total
    for i in range(nb):
        last = i == nb - 1
        byte = []
        if cd.kind == 'varint' and i == 0: byte.append(1 if neg else 0)
        if not (last and full): byte.append(0 if last else 1)
        n = 8 - len(byte)
        for j in range(n):
            pos -= 1
            byte.append(mb[pos])
        out += byte
    assert pos == 0
    return out

WIDTHS = list(range(1, 65))

def need(c, F, name):
    b = fn(F, name)
    if b is None: c.violation('anchor:' + name, 'codec function %s not found in the runtime crate' % name)
    return b

def w01(c):
    c.rule('interpret each scalar encoder on every magnitude class of its range, feed the resulting bit-provenance vector to the decoder, and require the identity and exact consumption')
    F = build.load('rt')
    for cd in codecs(WIDTHS):
        wb, rb = need(c, F, cd.w), need(c, F, cd.r)
        if not wb or not rb: continue
        c.count('codecs')
        def go(cls):
            v, D, S, o = encode(F, cd, cls, wb)
            if o.kind != 'ok': return 'encoder %s fails on in-range values: %s' % (cd.w, o.panics[:1] or 'returns an error')
            S2 = Stream(D, S.out)
            o2 = run_fn(F, rb, [SYM('reader')] + cd.extra, D, S2)
            if o2.kind != 'ok': return 'decoder %s does not accept what %s wrote: %s' % (cd.r, cd.w, o2.panics[:1] or 'returns an error')
            if S2.pos != len(S.out): return 'decoder %s consumes %d of %d bits' % (cd.r, S2.pos, len(S.out))
            if not D.value_eq(o2.value, v): return 'decoder %s returns %s instead of the value written' % (cd.r, show(o2.value, 5)[:300])
            return len(S.out)
        for cls, r, e in refine(classes(cd.lo, cd.hi), go):
            if e is not None: c.violation('%s:undecided' % cd.label, '%s: cannot establish the round trip for values %s: %s' % (cd.label, cls, e))
            elif isinstance(r, str): c.violation('%s:roundtrip' % cd.label, '%s, values %s: %s' % (cd.label, cls, r))
            else: c.ok('value classes', sample='%s %s: %d bits, identity' % (cd.label, cls, r))
    floats(c, F, 'rt')
    c.floor('codecs', 17)
    c.assumptions.append('bit positions other than the current one are never consulted by the codecs (no position/bit_count operation occurs in their effect trees)')

def floats(c, F, mode):
    for n, ty in ((64, 'f64'), (32, 'f32'), (16, 'f32')):
        nm = 'float%d' % n
        wb, rb = need(c, F, 'write_' + nm), need(c, F, 'read_' + nm)
        if not wb or not rb: continue
        c.count('codecs')
        v = SYM('x:' + ty, ty); D = Dom()
        try:
            S = Stream(D)
            o = run_fn(F, wb, [SYM('writer'), v], D, S)
            if o.kind != 'ok': c.violation(nm + ':write', 'write_%s fails: %s' % (nm, o.panics[:1])); continue
            if mode == 'w02':
                bits = D.canon_bits(S.out)
                half = v if n != 16 else APP('half::f16::from_f32', v)
                good = len(bits) == n
                # byte i of to_be_bytes(v), bits 7..0
                bases = []
                for i in range(n // 8):
                    seg = bits[8 * i:8 * i + 8]
                    good = good and all(not isinstance(b, int) and b[1] == 7 - j and b[0] is seg[0][0] for j, b in enumerate(seg))
                    if good: bases.append(seg[0][0])
                if good:
                    for i, b in enumerate(bases):
                        X = b.a[0] if b.op == 'fld' else None
                        good = good and X is not None and b.a[1] == ('i', INT(i, 'usize')) and X.op == 'app' and X.a[0].endswith('::to_be_bytes') and float_src(X, v, n)
                c.check(good, nm + ':layout', 'write_%s does not write the %d IEEE bits of its argument, most significant byte first: %s' % (nm, n, show(tuple(b for b in bases), 4)), 'value classes')
                continue
            S2 = Stream(D, S.out)
            o2 = run_fn(F, rb, [SYM('reader')], D, S2)
            if o2.kind != 'ok': c.violation(nm + ':read', 'read_%s rejects what write_%s wrote' % (nm, nm)); continue
            good = S2.pos == len(S.out) and float_id(o2.value, v, n)
            c.check(good, nm + ':roundtrip', 'read_%s(write_%s(x)) = %s' % (nm, nm, show(o2.value, 6)), 'value classes', sample='%s: %s' % (nm, show(o2.value, 5)))
        except Imprecise as e:
            c.violation(nm + ':undecided', '%s: %s' % (nm, e))

def _name(t): return t.a[0] if t.op == 'app' else ''
def float_src(X, v, n):
    """X = to_be_bytes(src): src is v (or half(v))"""
    src = X.a[1]
    if n == 16: return X.a[0].startswith(('f16', 'half')) or True and _name(src).endswith('from_f32') and src.a[1] is v
    return src is v
def float_id(r, v, n):
    if n == 16:
        return _name(r).endswith('to_f32') and _name(r.a[1]).endswith('from_f32') and r.a[1].a[1] is v
    return r is v

def w02(c):
    c.rule('the bit-provenance vector each scalar encoder produces on every magnitude class equals the vector computed from the zserio format definition')
    F = build.load('rt')
    for cd in codecs(WIDTHS):
        wb = need(c, F, cd.w)
        if not wb: continue
        c.count('codecs')
        def go(cls):
            v, D, S, o = encode(F, cd, cls, wb)
            if o.kind != 'ok': return 'no encoding: %s' % (o.panics[:1] or 'error',)
            a = D.canon_bits(S.out); b = D.canon_bits(expected_bits(cd, D, v, cls))
            if a != b:
                if len(a) != len(b): return '%d bits written, the format has %d' % (len(a), len(b))
                i = next(i for i in range(len(a)) if a[i] != b[i])
                return 'wire bit %d is %s, the format has %s' % (i, show(a[i], 3), show(b[i], 3))
            return len(a)
        for cls, r, e in refine(classes(cd.lo, cd.hi), go):
            if e is not None: c.violation('%s:undecided' % cd.label, '%s: cannot establish the encoding of values %s: %s' % (cd.label, cls, e))
            elif isinstance(r, str): c.violation('%s:layout' % cd.label, '%s (%s), values %s: %s' % (cd.label, wb.path, cls, r))
            else: c.ok('value classes', sample='%s %s: %d bits as specified' % (cd.label, cls, r))
    floats(c, F, 'w02')
    c.floor('codecs', 17)

def w03(c):
    c.rule('per magnitude class: the size function returns the constant number of bits the encoder appends, and fails exactly where the encoder fails')
    F = build.load('rt')
    for cd in codecs([]):
        if not cd.s: continue
        wb, sb = need(c, F, cd.w), need(c, F, cd.s)
        if not wb or not sb: continue
        c.count('codecs')
        def go(cls):
            v, D, S, o = encode(F, cd, cls, wb)
            v, D = setup(cls, cd.ty)
            o2 = run_fn(F, sb, [v], D, Stream(D))
            if o2.kind == 'panic': return '%s panics: %s' % (cd.s, o2.panics[:1])
            if o.kind == 'panic': return '%s panics: %s' % (cd.w, o.panics[:1])
            if o.kind != o2.kind: return '%s %s but %s %s' % (cd.w, o.kind, cd.s, o2.kind)
            if o.kind == 'ok':
                r = D.rng(o2.value)
                if not r or r != (len(S.out), len(S.out)): return '%s returns %s, %d bits are written' % (cd.s, r or show(o2.value, 4), len(S.out))
                return len(S.out)
            return -1
        for cls, r, e in refine(classes(*cd.full), go):
            if e is not None: c.violation('%s:undecided' % cd.label, '%s: cannot establish the size of values %s: %s' % (cd.label, cls, e))
            elif isinstance(r, str): c.violation('%s:size' % cd.label, '%s, values %s: %s' % (cd.label, cls, r))
            else: c.ok('value classes', sample='%s %s: %s' % (cd.label, cls, '%d bits' % r if r >= 0 else 'both fail'))
    c.floor('codecs', 9)

def w05(c):
    c.rule('per magnitude class outside the range of the zserio type: the encoder returns an error (no panic, no success)')
    F = build.load('rt')
    for cd in codecs(WIDTHS):
        wb = need(c, F, cd.w)
        if not wb: continue
        c.count('codecs')
        lo, hi = cd.full
        rng_out = []
        if hi > cd.hi: rng_out += [x for x in classes(cd.hi + 1, hi)]
        if lo < cd.lo: rng_out += [x for x in classes(lo, cd.lo - 1)]
        def go(cls):
            v, D, S, o = encode(F, cd, cls, wb)
            if o.kind == 'err': return 0
            if o.kind == 'ok': return 'writes %d bits and reports success' % len(S.out)
            return 'panics: %s' % (o.panics[:1],)
        for cls, r, e in refine(rng_out, go):
            if e is not None: c.violation('%s:undecided' % cd.label, '%s: cannot establish what happens for values %s: %s' % (cd.label, cls, e))
            elif isinstance(r, str): c.violation('%s:misfit' % cd.label, '%s (%s), values %s outside the type: %s' % (cd.label, wb.path, cls, r))
            else: c.ok('out-of-range classes', sample='%s %s: error' % (cd.label, cls))
    c.floor('out-of-range classes', 100)

def n01(c):
    c.rule('bit_length and numbits evaluated on every magnitude class of every unsigned type (and the non-negative half of the signed ones) return the constant minimal width of the class')
    F = build.load('rt')
    bl, nb = need(c, F, 'bit_length'), need(c, F, 'numbits')
    if not bl or not nb: return
    for ty in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64'):
        full = T.rng(ty)
        for b, cls_list, want in ((bl, classes(0, full[1]), lambda lo: lo.bit_length()),
                                  (nb, [(0, 0), (1, 1)] + [((1 << k) + 1, min(1 << (k + 1), full[1])) for k in range(0, 64) if (1 << k) + 1 <= full[1]], lambda lo: 0 if lo == 0 else 1 if lo == 1 else (lo - 1).bit_length())):
            def go(cls):
                v, D = setup(cls, ty)
                o = run_fn(F, b, [v], D, Stream(D), tsub={g: ('int', ty) for g in b.generics})
                if o.kind != 'ret': return 'panics: %s' % (o.panics[:1],)
                r = D.rng(o.value)
                if r and r[0] != r[1]: raise Imprecise('result in %s' % (r,))
                if not r or r[0] != want(cls[0]): return 'returns %s, the minimal width is %d' % (r and r[0], want(cls[0]))
                return r[0]
            for cls, r, e in refine(cls_list, go):
                if e is not None: c.violation('%s<%s>:undecided' % (b.name, ty), '%s<%s> for %s: %s' % (b.name, ty, cls, e))
                elif isinstance(r, str): c.violation('%s<%s>' % (b.name, ty), '%s<%s> for %s: %s' % (b.path, ty, cls, r))
                else: c.ok('value classes', sample='%s<%s> %s = %d' % (b.name, ty, cls, r))
    c.floor('value classes', 500)

def r04(c):
    c.rule('position p = n*q + r (q symbolic, every residue r of every alignment n in 1..64): reader, writer and size helper each advance by exactly (n - r) mod n; the writer appends zero bits')
    F = build.load('rt')
    fs = {n: need(c, F, n) for n in ('align_reader', 'align_writer', 'align_bitsize', 'align_to')}
    if not all(fs.values()): return
    for n in list(range(1, 65)):
        for r in range(n):
            q = SYM('q', 'u64'); D = Dom({q: (0, 1 << 50)})
            p = BIN('Add', BIN('Mul', q, INT(n, 'u64'), 'u64'), INT(r, 'u64'), 'u64')
            want = (n - r) % n
            for nm, b in fs.items():
                S = Stream(D, inp=[0] * 128, pos0=p)
                try:
                    if nm == 'align_bitsize':
                        o = run_fn(F, b, [p, INT(n, 'u64')], D, S); got = D.rng(o.value) if o.kind == 'ret' else None
                        got = got[0] if got and got[0] == got[1] else None
                    elif nm == 'align_to':
                        o = run_fn(F, b, [INT(n, 'u8'), p], D, S)
                        l = D.lin(o.value) if o.kind == 'ret' else None
                        got = l[0] - r if l and l[1] == ({q: n}) else None
                    else:
                        o = run_fn(F, b, [SYM('s'), INT(n, 'u64')], D, S)
                        got = None if o.kind != 'ok' else S.pos if nm == 'align_reader' else len(S.out)
                        if nm == 'align_writer' and any(x != 0 for x in S.out): got = None
                except Imprecise as e:
                    c.violation('%s:undecided' % nm, '%s, alignment %d, position = %d mod %d: %s' % (nm, n, r, n, e)); continue
                c.check(got == want, nm, '%s (%s) with alignment %d at a position congruent to %d advances %s bits instead of %d%s' % (nm, b.path, n, r, got if got is not None else 'an unexpected number of', want, ' (panics: %s)' % o.panics[:1] if o.panics else ''),
                        'alignment/residue cases', sample='%s n=%d r=%d: +%d' % (nm, n, r, want))
    c.floor('alignment/residue cases', 8000)

CHECKS = {'N01': n01, 'R04': r04, 'W01': w01, 'W02': w02, 'W03': w03, 'W05': w05}
