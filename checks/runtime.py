"""R01-R03, W04, A01: arrays, delta packing, array traits, strings and blobs, top-level API of the runtime."""
from engine import build
from engine.genrun import *
from engine.scalar import *

TR = 'zserio::ztype::array_traits::'
NODE = TR + 'packing_context_node::PackingContextNode'
ORACLE = {'BooleanArrayTrait': ('bool',), 'StringArrayTrait': ('string',), 'ByteBufferArrayTrait': ('bytes',), 'BitBufferArrayTrait': ('extern',),
          'Float16ArrayTrait': ('float16',), 'Float32ArrayTrait': ('float32',), 'Float64ArrayTrait': ('float64',), 'BitFieldArrayTrait': ('i',), 'UnsignedBitFieldArrayTrait': ('u',),
          'ObjectArrayTrait': ('obj',)}
for n in ('varint16', 'varint32', 'varint64', 'varint', 'varsize'): ORACLE[n.replace('varint', 'VarInt').replace('varsize', 'VarSize') + 'ArrayTrait'] = (n,)
for n in ('varuint16', 'varuint32', 'varuint64', 'varuint'): ORACLE[n.replace('varuint', 'VarUint') + 'ArrayTrait'] = (n,)

def guarded(c, key, f):
    try: return f()
    except (Mismatch, AnalysisError) as e:
        c.violation(key, str(e)); return None

class TraitImpl:
    def __init__(self, F, im):
        self.F, self.im = F, im
        self.self_ty = im['self']; self.elem = im['trait'][1][1] if len(im['trait'][1]) > 1 else None
        self.name = im['self'][1].rsplit('::', 1)[-1]
        self.label = '%s<%s>' % (self.name, ty_str(self.elem).replace('alloc::', '').replace('zserio::', '') if self.elem else '')
    def fn(self, n):
        p = self.im['items'].get(n) or ATRAIT + '::' + n
        b = self.F.bodies.get(p)
        if b is None: raise AnalysisError('%s has no %s' % (self.label, n))
        return b
    def run(self, n, mode, args, env=None, wire=None, I=None, decide=None):
        w = wire or Wire(self.F, 'trait', mode)
        I = I or Interp(self.F, policy=w.policy)
        I.decide_hook = decide
        st = State()
        b = self.fn(n)
        tsub = {} if n in self.im['items'] else {'Self': self.self_ty, 'T': self.elem}
        fr = I.new_frame(b, tsub, 0)
        for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
        if env: st.env.update(env)
        outs = I.run(fr, 0, {}, st)
        s = outs.get('ret')
        if s is None: raise AnalysisError('%s::%s never returns normally' % (self.label, n))
        w.ret = I.deep(s, s.env.get(('L', fr.fid, 0), UNIT())); w.st = s; w.I = I
        return w

def okpart(v):
    if v.op == 'res': return v.a[1]
    if v.op == 'adt' and v.a[0] == RESULT and v.a[1] == 0: return v.a[2]
    return PROJ(v, ('f', 0, 0))

def ops_of(eff):
    for e in leaves(eff):
        if e[0] in ('op', 'havoc'): yield e

def R03(c):
    c.rule('every ArrayTrait implementation: write, read and bitsize_of use exactly the codec of the trait\'s zserio type with the trait\'s own width; read inverts write; from_u64 inverts to_u64 for every element or the trait never initialises a delta context; '
           'init, size, read and write of the packed form act on the same delta context with the trait itself and the given element; constant size traits return a size that depends on the trait only')
    F = build.load('rt')
    impls = [im for im in F.impl_index.get(ATRAIT, ()) if im['crate'] == 'zserio']
    c.assumptions += ['the runtime codecs behave as W01, W03, W04 establish', 'elements of a bit field array fit the declared width (otherwise the write fails, W05)']
    for im in impls:
        t = TraitImpl(F, im)
        guarded(c, t.label + ':analysis', lambda: trait_impl(c, F, t))
    c.floor('trait implementations', 24); c.floor('trait operations', 200)

def trait_impl(c, F, t):
    L = t.label
    kind = ORACLE.get(t.name)
    if kind is None: c.violation(L + ':unknown', '%s implements ArrayTrait but has no zserio type assigned in this check' % L); return
    tag = '%s@%s' % (t.self_ty[1], ty_str(t.elem))
    tr, val, rv, cx = SYM('trait@' + tag), SYM('value@' + tag), SYM('target@' + tag), SYM('ctx')
    TRV, VAL = mk('deref', tr), mk('deref', val)
    ety = tystr(t.elem)
    if ety: VAL.ty = ety; mk('deref', rv).ty = ety
    adt = F.adts[t.self_ty[1]]
    wanted = list(kind)
    if kind[0] in ('u', 'i'):
        fld = [i for i, f in enumerate(adt['variants'][0]['fields']) if f[0] == 'num_bits']
        if not fld: c.violation(L + ':num_bits', '%s has no num_bits field' % L); return
        nb = PROJ(TRV, ('f', None, fld[0])); nb.ty = 'u8'
        wanted.append(CAST(nb, 'u8', 'u64'))
    if kind[0] == 'obj': wanted.append(t.elem)
    # ---- write
    w = t.run('write', 'write', [tr, SYM('writer'), val])
    s = stream(w.st.eff, SNIL())
    x = s
    while x.op == 'sfact': x = x.a[1]
    kinds = [o.a[0] for o in stream_ops(s)]
    good = x.op == 'sop' and len(kinds) == 1 and x.a[2].op == 'snil' and kinds[0] is mk('kind', *wanted)
    c.check(good, L + ':codec', '%s: write performs %s instead of one %s' % (t.fn('write').path, ', '.join(kshow(k.a) for k in kinds) or 'nothing', kshow(tuple(wanted))), 'trait operations', L + ' write ' + kshow(tuple(wanted)))
    if x.op != 'sop': return
    pv = x.a[1]
    want = VAL if kind[0] not in ('u', 'i') else CAST(VAL, ety, kind[0] + '64')
    c.check(whole(pv) is want, L + ':written', '%s: write encodes %s instead of the element' % (t.fn('write').path, show(pv, 6)), 'trait operations')
    # ---- read
    def rd():
        r = Reader(F, 'trait'); r.bodies = []
        I = MInterp(F, policy=r.policy); I.rd = r; r.I = I
        t.run('read', 'mirror', [tr, SYM('reader'), rv], {X: s, XK: INT(0, 'usize')}, wire=r, I=I, decide=r.decide)
        st = r.st
        if not ended(r, st, r.head(st)): c.violation(L + ':rest', '%s: read consumes less than write produced' % t.fn('read').path)
        v = I.deep(st, st.env.get(('P', rv), mk('deref', rv)))
        c.check(r.eqv(st, v, VAL, [500]), L + ':read', '%s: read yields %s instead of the written element' % (t.fn('read').path, show(v, 6)), 'trait operations')
        for k, m in r.viol: c.violation(L + ':' + k, m)
        for e in leaves(st.eff):
            if e[0] in ('panic', 'fail') and not opaque_fail(e[1]) and not (e[0] == 'fail' and e[1].op == 'int' and not e[1].a[0]):
                c.violation(L + ':readreject', '%s: read can reject or abort on a written element (%s when %s)' % (t.fn('read').path, e[0], show(e[1], 5)))
    guarded(c, L + ':read', rd)
    # ---- size
    pos = SYM('pos', 'u64')
    def size(n, args, env=None):
        q = t.run(n, 'size', args, env)
        for e in ops_of(q.st.eff): c.violation(L + ':%s:effect' % n, '%s: %s performs %s' % (t.fn(n).path, n, e[1]))
        return okpart(q.ret)
    def fixed_conv(v): return v
    sz = size('bitsize_of', [tr, pos, val])
    st0 = State(); I0 = Interp(F); R0 = Reader(F, 'trait'); R0.I = I0; I0.decide_hook = R0.decide
    expect = opsize(tuple(wanted), pv, pos)
    d = size_equal(R0, st0, sz, expect, [500])
    c.check(d is None, L + ':size', '%s: bitsize_of is %s, write appends %s' % (t.fn('bitsize_of').path, show(sz, 5), show(expect, 5)), 'trait operations')
    off = size('initialize_offsets', [tr, pos, val])
    d = size_equal(R0, st0, off, BIN('Add', pos, expect, 'u64'), [500])
    c.check(d is None, L + ':offsets', '%s: initialize_offsets is %s instead of the position after the element' % (t.fn('initialize_offsets').path, show(off, 5)), 'trait operations')
    q = t.run('is_bitsizeof_constant', 'size', [tr])
    const = q.ret
    if const.op != 'int': c.violation(L + ':const', '%s: is_bitsizeof_constant is not a constant' % L)
    elif const.a[0]:
        dep = [y for y in walk(sz) if y in (VAL, pos, val)]
        c.check(not dep, L + ':const', '%s claims a constant element size but bitsize_of depends on %s' % (L, show(dep[0], 3) if dep else ''), 'trait operations')
    # ---- integral conversion
    delta = None
    def conv():
        u = t.run('to_u64', 'size', [tr, val]).ret
        u = tocast(u, 'u64')
        b = t.run('from_u64', 'size', [tr, u]).ret
        return u, b
    # ---- packed form
    q = t.run('create_context', 'create', [tr])
    node = q.ret
    env = {('P', cx): node}
    used = {}
    elem_ok = True
    for n, args, mode in (('init_context', [tr, cx, val], 'write'), ('write_packed', [tr, cx, SYM('writer'), val], 'write')):
        q = t.run(n, mode, args, env)
        ks = [(e[2][0].a, whole(e[2][1])) for e in ops_of(q.st.eff) if e[0] == 'op' and e[1] == 'put']
        for e in leaves(q.st.eff):
            if e[0] == 'panic' and I0.decide(st0, e[1]) is not False: c.violation(L + ':%s:panic' % n, '%s: %s can panic on a context made by create_context (%s)' % (t.fn(n).path, n, e[2]))
        used[n] = ks
        for k, v in ks:
            if v is not VAL: c.violation(L + ':%s:value' % n, '%s: %s passes %s instead of the element' % (t.fn(n).path, n, show(v, 5)))
    def readp():
        q = Free(F, 'trait')
        t.run('read_packed', 'free', [tr, cx, SYM('reader'), rv, SYM('index', 'usize')], env, wire=q)
        ks = []
        for e in ops_of(q.st.eff):
            if e[0] == 'op' and e[1] in ('get', 'getobj'):
                ks.append((e[2][0].a, e[2][1]))
        fin = q.st.env.get(('P', rv))
        if len(ks) == 1 and whole(fin) is not whole(ks[0][1]): c.violation(L + ':read_packed:value', '%s: read_packed stores %s instead of what was read' % (t.fn('read_packed').path, show(fin, 5)))
        used['read_packed'] = ks
    guarded(c, L + ':read_packed', readp)
    def sizep(n):
        q = t.run(n, 'size', [tr, cx, pos, val], env)
        v = okpart(q.ret)
        return v
    zp = sizep('bitsize_of_packed'); zo = sizep('initialize_offsets_packed')
    wp = used['write_packed']
    if len(wp) != 1:
        c.violation(L + ':write_packed', '%s: write_packed performs %d context operations' % (t.fn('write_packed').path, len(wp))); return
    k = wp[0][0]
    if k[0] == 'ctx':
        ok = k[2] is TRV
        c.check(ok, L + ':write_packed:trait', '%s: write_packed codes with %s instead of the trait itself' % (t.fn('write_packed').path, show(k[2], 5)), 'trait operations')
    elif not (k[0] == 'objp' and kind[0] == 'obj'):
        c.violation(L + ':write_packed', '%s: write_packed performs %s' % (t.fn('write_packed').path, kshow(k))); return
    init = used['init_context']
    c.check(len(init) <= 1 and all(x[0] == k for x in init), L + ':init_context', '%s: init_context acts on %s, write_packed on %s' % (t.fn('init_context').path, ', '.join(kshow(x[0]) for x in init), kshow(k)), 'trait operations')
    rp = used.get('read_packed')
    if rp is not None:
        c.check([x[0] for x in rp] == [k], L + ':read_packed', '%s: read_packed acts on %s, write_packed on %s' % (t.fn('read_packed').path, ', '.join(kshow(x[0]) for x in rp), kshow(k)), 'trait operations')
    e2 = opsize(k, VAL, pos)
    for n, z, e in (('bitsize_of_packed', zp, e2), ('initialize_offsets_packed', zo, BIN('Add', pos, e2, 'u64'))):
        d = size_equal(R0, st0, z, e, [500])
        c.check(d is None, L + ':' + n, '%s: %s is %s, write_packed appends %s' % (t.fn(n).path, n, show(z, 5), show(e2, 5)), 'trait operations')
    if k[0] == 'ctx':
        integral = bool(init)
        if integral:
            def cv():
                u, b = conv()
                c.check(R0.eqv(st0, b, VAL, [300]), L + ':from_u64', '%s: from_u64(to_u64(v)) is %s, not v' % (L, show(b, 6)), 'trait operations', L + ' integral conversion')
            guarded(c, L + ':from_u64', cv)
        else:
            c.ok('trait operations', 1, L + ' never initialises its delta context')
        c.check(not (not integral and kind[0] in ('u', 'i') or not integral and kind[0].startswith('var')), L + ':uninitialised', '%s: init_context does not register the element, although the type is integral' % L, 'trait operations')
        c.check(not (integral and kind[0] in ('string', 'bytes', 'extern', 'float16', 'float32', 'float64')), L + ':nonintegral', '%s: elements without an integral representation are delta coded' % L, 'trait operations')
    c.ok('trait implementations')



# ------------------------------------------------------------------ delta contexts
class DRun:
    """DeltaContext methods as transitions on a symbolic state; the array trait is opaque, bit_length is N01's function"""
    def __init__(self, F):
        self.F = F
        self.adt = F.adts['zserio::ztype::array_traits::delta_context::DeltaContext']
        self.ix = {f[0]: i for i, f in enumerate(self.adt['variants'][0]['fields'])}
        self.CX = SYM('delta'); self.D = mk('deref', self.CX)
        for f in self.adt['variants'][0]['fields']:
            if tystr(f[1]): PROJ(self.D, ('f', None, self.ix[f[0]])).ty = tystr(f[1])
        self.tr, self.el = SYM('trait'), SYM('element')
        self.TRV, self.EL = mk('deref', self.tr), mk('deref', self.el)
    def policy(self, w):
        def p(c):
            if c.path in ('zserio::numbits::bit_length',): return mk('app', 'bl', tocast(c.val(0), 'u64'), ty='u8')
            return w.policy(c)
        return p
    def f(self, v, n): return PROJ(v, ('f', None, self.ix[n]))
    def body(self, n):
        b = self.F.bodies.get(DC + n)
        if b is None: raise AnalysisError('DeltaContext::%s is gone' % n)
        return b
    def run(self, n, mode, args, pre=None, facts=(), wire=None, I=None, env=None):
        w = wire or Wire(self.F, 'delta', mode)
        I = I or Interp(self.F, policy=self.policy(w)); w.I = I
        R = Reader(self.F, 'delta'); R.I = I
        I.decide_hook = w.decide if isinstance(w, Reader) else R.decide
        st = State()
        if pre is not None: st.env[('P', self.CX)] = pre
        if env: st.env.update(env)
        for c, v in facts: I.assume(st, c, v)
        b = self.body(n)
        fr = I.new_frame(b, {}, 0)
        for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
        outs = I.run(fr, 0, {}, st)
        s = outs.get('ret')
        if s is None: raise AnalysisError('DeltaContext::%s never succeeds (%s)' % (n, ', '.join('%s=%s' % (show(c, 4), v) for c, v in facts)))
        w.st = s; w.R = w if isinstance(w, Reader) else R
        w.ret = I.deep(s, s.env.get(('L', fr.fid, 0), UNIT()))
        w.post = I.deep(s, s.env.get(('P', self.CX), self.D))
        return w
def implied(R, st, c, lim=200):
    """c holds under the facts of st (gates split)"""
    lim -= 1
    if lim < 0: return False
    d = R.I.decide(st, c)
    if d is not None: return d
    x = None
    for y in walk(c):
        if y.op == 'ite':
            x = gatecond(R, st, y.a[0])
            if x is not None: break
            # resolve a decided gate
            d = R.I.decide(st, y.a[0])
            if d is not None: return implied(R, st, subst(c, {y: y.a[1] if d else y.a[2]}), lim)
    if x is None: return False
    for v in (True, False):
        s = State(st.env, [], dict(st.pc)); R.I.assume(s, x, v)
        if not implied(R, s, c, lim): return False
    return True

def R02(c):
    c.rule('DeltaContext as a transition system with an opaque array trait: initialisation keeps is_packed only while the bit length of every difference of consecutive elements is at most max_bit_number <= 62 and the last element is remembered; '
           'writing and sizing settle the packed decision identically on first use; reading mirrors writing (descriptor, first element, deltas), so that by induction reader and writer states agree and every element is reproduced')
    c.assumptions += ['elements are written in the order and number they were registered (G04)', 'array traits behave as R03 establishes', 'bit_length is minimal (N01)', 'sizes and element counts do not overflow u64',
                      'elements coded through a delta context have a size that does not depend on the position (R03: only objects have)',
                      'a 64 bit difference of bit length k <= 62 taken modulo 2^64 is a signed value of k+1 bits']
    F = build.load('rt')
    guarded(c, 'delta:analysis', lambda: delta(c, F))
    c.floor('delta obligations', 30)
    R03(c)

def delta(c, F):
    d = DRun(F)
    D, EL, TRV = d.D, d.EL, d.TRV
    P, M, prev, started, initd = (d.f(D, n) for n in ('is_packed', 'max_bit_number', 'previous_element', 'processing_started', 'init_started'))
    E = mk('app', 'to_u64', TRV, EL, ty='u64')
    LIM = INT(62, 'u8')
    def ob(cond, key, msg, sample=None): c.check(cond, 'delta:' + key, msg, 'delta obligations', sample)
    # ---- fresh context
    w = d.run('new', 'size', [])
    v = w.ret
    fresh = {n: d.f(v, n) for n in d.ix}
    ob(all(isint(fresh[n]) and fresh[n].a[0] == 0 for n in ('is_packed', 'max_bit_number', 'num_elements', 'unpacked_size', 'init_started', 'processing_started')), 'new',
       'DeltaContext::new does not start unpacked and uninitialised: %s' % show(v, 5))
    # ---- initialisation
    bad = lambda w: [e for e in ops_of(w.st.eff) if e[0] == 'havoc' or e[1] not in ('fact',)]
    w = d.run('init', 'size', [d.CX, d.tr, d.el], facts=[(initd, False), (P, False)] + [(BIN('Eq', M, INT(0, 'u8'), 'bool'), True)])
    ob(not bad(w), 'init:effect', 'DeltaContext::init performs %s' % [e[1] for e in bad(w)])
    q = w.post; s = w.st
    same = lambda w, a, b: w.R.eqv(w.st, tocast(a, b.ty) if b.ty else a, b, [300])
    num, uns, fst = d.f(D, 'num_elements'), d.f(D, 'unpacked_size'), d.f(D, 'first_element_size')
    ES = mk('app', 'elsize', TRV, EL, INT(0, 'u64'), ty='u64')
    for n, want in (('init_started', BOOL(True)), ('is_packed', BOOL(False)), ('max_bit_number', INT(0, 'u8')), ('previous_element', E), ('num_elements', BIN('Add', num, INT(1, 'u64'), 'u64')), ('unpacked_size', BIN('Add', uns, ES, 'u64'))):
        ob(same(w, d.f(q, n), want), 'init:first:' + n, 'DeltaContext::init on the first element sets %s to %s instead of %s' % (n, show(d.f(q, n), 5), show(want, 4)), 'first element: %s' % n)
    ob(same(w, d.f(q, 'first_element_size'), BIN('Add', uns, ES, 'u64')) or same(w, d.f(q, 'first_element_size'), ES), 'init:first:size', 'DeltaContext::init records %s as the size of the first element' % show(d.f(q, 'first_element_size'), 5))
    # later elements, still packable; one run per direction of the difference
    le, ge = BIN('Le', prev, E, 'bool'), BIN('Le', E, prev, 'bool')
    for tag, base in (('up', [(le, True), (ge, False)]), ('equal', [(le, True), (ge, True)]), ('down', [(le, False), (ge, True)])):
        w = d.run('init', 'size', [d.CX, d.tr, d.el], facts=[(initd, True), (BIN('Le', M, LIM, 'bool'), True)] + base)
        q, s, R = w.post, w.st, w.R
        ob(not bad(w), 'init:effect2', 'DeltaContext::init performs %s' % [e[1] for e in bad(w)])
        P2, M2, prev2 = d.f(q, 'is_packed'), tocast(d.f(q, 'max_bit_number'), 'u8'), d.f(q, 'previous_element')
        diffs = [BIN('Sub', E, prev, 'u64')] * (tag != 'down') + [BIN('Sub', prev, E, 'u64')] * (tag != 'up')
        def under(facts):
            s2 = State(s.env, [], dict(s.pc))
            for f, v in facts: R.I.assume(s2, f, v)
            return s2
        pk = under([(P2, True)])
        if tag == 'equal':      # a difference of zero has bit length zero
            for x in diffs:
                for y in (x, CAST(x, 'u64', 'i64')): R.I.assume(pk, BIN('Eq', mk('app', 'bl', x, ty='u8'), INT(0, 'u8'), 'bool'), True)
        for df in diffs[:1] if tag != 'equal' else diffs:
            bl = mk('app', 'bl', df, ty='u8')
            ob(implied(R, pk, BIN('Le', bl, M2, 'bool')), 'init:width:' + tag, 'DeltaContext::init: after an element whose difference to the previous one has bit length %s the context stays packed with max_bit_number %s, which may be smaller' % (show(bl, 4), show(M2, 6)), 'width covers the %s-ward difference' % tag)
        ob(implied(R, pk, BIN('Le', M, M2, 'bool')), 'init:monotone:' + tag, 'DeltaContext::init: max_bit_number may shrink to %s' % show(M2, 6))
        ob(implied(R, pk, BIN('Le', M2, LIM, 'bool')), 'init:limit:' + tag, 'DeltaContext::init keeps packing with max_bit_number %s above 62' % show(M2, 6))
        ob(R.eqv(pk, tocast(prev2, 'u64'), E, [300]), 'init:previous:' + tag, 'DeltaContext::init remembers %s instead of the element' % show(prev2, 6))
        # giving up is permanent: not packed now => max_bit_number beyond the limit
        un = under([(P2, False)])
        if tag != 'equal': ob(implied(R, un, NOT(BIN('Le', M2, LIM, 'bool'))), 'init:giveup:' + tag, 'DeltaContext::init may resume packing after an element was not covered (is_packed %s, max_bit_number %s)' % (show(P2, 5), show(M2, 5)))
    for n, want in (('init_started', BOOL(True)), ('num_elements', BIN('Add', num, INT(1, 'u64'), 'u64')), ('unpacked_size', BIN('Add', uns, ES, 'u64')), ('first_element_size', fst), ('processing_started', started)):
        ob(same(w, d.f(q, n), want), 'init:later:' + n, 'DeltaContext::init on a later element sets %s to %s instead of %s' % (n, show(d.f(q, n), 5), show(want, 4)))
    w = d.run('init', 'size', [d.CX, d.tr, d.el], facts=[(initd, True), (P, False), (BIN('Le', M, LIM, 'bool'), False)])
    ob(w.R.I.decide(w.st, d.f(w.post, 'is_packed')) is False and implied(w.R, w.st, NOT(BIN('Le', tocast(d.f(w.post, 'max_bit_number'), 'u8'), LIM, 'bool'))), 'init:given up',
       'DeltaContext::init resumes packing after the limit was exceeded')
    for k in ('panic',):
        for e in leaves(w.st.eff): pass
    # ---- first use: writer, size, reader
    W1 = d.run('write', 'write', [d.CX, d.tr, SYM('writer'), d.el], facts=[(started, False)])
    S1 = d.run('bitsize_of', 'size', [d.CX, d.tr, SYM('pos', 'u64'), d.el], facts=[(started, False)])
    fields = ('is_packed', 'max_bit_number', 'previous_element', 'processing_started')
    for n in ('is_packed', 'max_bit_number', 'processing_started'):
        ob(W1.R.eqv(State(), d.f(W1.post, n), d.f(S1.post, n), [300]), 'first:size:' + n, 'DeltaContext::bitsize_of leaves %s as %s on first use, write as %s' % (n, show(d.f(S1.post, n), 6), show(d.f(W1.post, n), 6)), 'first use settles %s alike' % n)
    def sized(Wr, Sz, key):
        nopos = lambda t: subst(t, {y: mk('app', *y.a[:3], INT(0, 'u64'), ty='u64') for y in walk(t) if y.op == 'app' and y.a[0] == 'elsize'})
        wr = nopos(written(Wr.st.eff, INT(0, 'u64')))
        st = State()
        for f, v in Wr.facts0: Wr.R.I.assume(st, f, v)
        e = size_equal(Wr.R, st, wr, nopos(okpart(Sz.ret)), [500])
        ob(e is None, key, 'DeltaContext::bitsize_of: %s' % e, key)
    W1.facts0 = [(started, False)]
    guarded(c, 'delta:first:size', lambda: sized(W1, S1, 'first:size'))
    # packed decision only ever switches packing off; the width survives
    Pw, Mw = d.f(W1.post, 'is_packed'), d.f(W1.post, 'max_bit_number')
    ob(W1.R.eqv(State(), AND(Pw, NOT(P)), BOOL(False), [300]) or implied(W1.R, assumed(W1.R, [(Pw, True)]), P), 'first:off', 'DeltaContext::write may start packing although initialisation gave up: is_packed becomes %s' % show(Pw, 6))
    ob(W1.R.eqv(State(), tocast(Mw, 'u8'), M, [100]), 'first:width', 'DeltaContext::write changes max_bit_number to %s before coding' % show(Mw, 6))
    ob(W1.R.eqv(State(), tocast(d.f(W1.post, 'previous_element'), 'u64'), E, [100]), 'first:previous', 'DeltaContext::write remembers %s after the first element' % show(d.f(W1.post, 'previous_element'), 6))
    ob(implied(W1.R, State(), d.f(W1.post, 'processing_started')), 'first:started', 'DeltaContext::write does not note that coding started')
    def mirror(facts, Wr, key, pre, started_val, val):
        r = Reader(F, 'delta'); r.bodies = []
        I = MInterp(F, policy=d.policy(r)); I.rd = r; r.I = I
        tv = SYM('out'); s = stream(Wr.st.eff, SNIL())
        w = d.run('read', 'mirror', [d.CX, d.tr, SYM('reader'), tv], pre=pre, facts=facts, wire=r, I=I, env={X: s, XK: INT(0, 'usize')})
        ob(ended(r, w.st, r.head(w.st)), key + ':rest', 'DeltaContext::read consumes less than write produced')
        for k, m in r.viol: ob(False, key + ':' + k, m)
        out = I.deep(w.st, w.st.env.get(('P', tv), mk('deref', tv)))
        return w, r, out
    def first_read():
        pre = WITH(d.f_fresh(), ('f', None, d.ix['processing_started']), BOOL(False)) if False else v
        w, r, out = mirror([], W1, 'first:read', pre, False, EL)
        st0 = State()
        ob(r.eqv(st0, out, EL, [300]), 'first:read:value', 'DeltaContext::read yields %s instead of the first element' % show(out, 6), 'first element read back')
        ob(r.eqv(st0, d.f(w.post, 'is_packed'), Pw, [300]), 'first:read:packed', 'after the first element the reader\'s is_packed is %s, the writer\'s %s' % (show(d.f(w.post, 'is_packed'), 5), show(Pw, 5)))
        stp = assumed(r, [(Pw, True)])
        ob(r.eqv(stp, tocast(d.f(w.post, 'max_bit_number'), 'u8'), M, [300]), 'first:read:width', 'after the first element the reader\'s max_bit_number is %s' % show(d.f(w.post, 'max_bit_number'), 5))
        ob(r.eqv(stp, tocast(d.f(w.post, 'previous_element'), 'u64'), E, [300]), 'first:read:previous', 'after the first element the reader\'s previous_element is %s' % show(d.f(w.post, 'previous_element'), 5))
        ob(implied(r, State(), d.f(w.post, 'processing_started')), 'first:read:started', 'DeltaContext::read does not note that decoding started')
    guarded(c, 'delta:first:read', first_read)
    # ---- later elements
    Mz = BIN('Eq', M, INT(0, 'u8'), 'bool')
    for name, facts in (('unpacked', [(P, False)]), ('constant', [(P, True), (Mz, True)]), ('delta', [(P, True), (Mz, False), (BIN('Le', M, LIM, 'bool'), True)])):
        fs = [(started, True)] + facts
        def later():
            Wn = d.run('write', 'write', [d.CX, d.tr, SYM('writer'), d.el], facts=fs); Wn.facts0 = fs
            Sn = d.run('bitsize_of', 'size', [d.CX, d.tr, SYM('pos', 'u64'), d.el], facts=fs)
            sized(Wn, Sn, 'later:%s:size' % name)
            for n in ('is_packed', 'max_bit_number', 'processing_started'):
                for X0, who in ((Wn, 'write'), (Sn, 'bitsize_of')):
                    ob(X0.R.eqv(X0.st, d.f(X0.post, n), d.f(D, n), [100]), 'later:%s:%s:%s' % (name, who, n), 'DeltaContext::%s changes %s while coding' % (who, n))
            for e in leaves(Wn.st.eff):
                if e[0] in ('fail',) and not opaque_fail(e[1]) and e[1].op != 'int': ob(False, 'later:%s:reject' % name, 'DeltaContext::write rejects a registered element when %s' % show(e[1], 5))
            w, r, out = mirror(fs, Wn, 'later:%s:read' % name, D, True, EL)
            st = w.st
            if name == 'constant':
                # every difference has bit length 0: the previous element equals this one
                ob(r.eqv(st, out, mk('app', 'from_u64', TRV, prev), [300]) , 'later:constant:value', 'DeltaContext::read yields %s instead of the repeated element' % show(out, 6))
                ob(r.eqv(st, d.f(w.post, 'previous_element'), prev, [100]), 'later:constant:previous', 'DeltaContext::read changes the remembered element of a constant sequence')
                ob(Wn.R.eqv(Wn.st, d.f(Wn.post, 'previous_element'), prev, [100]) or Wn.R.eqv(Wn.st, d.f(Wn.post, 'previous_element'), E, [100]), 'later:constant:wprevious', 'DeltaContext::write remembers %s' % show(d.f(Wn.post, 'previous_element'), 4))
                return
            want = EL if name == 'unpacked' else mk('app', 'from_u64', TRV, E)
            ob(r.eqv(st, out, want, [300]) or r.eqv(st, out, EL, [300]), 'later:%s:value' % name, 'DeltaContext::read yields %s instead of the written element' % show(out, 8), 'later %s element read back' % name)
            if name == 'delta':
                for X0, who in ((w, 'read'), (Wn, 'write')):
                    ob(X0.R.eqv(X0.st, tocast(d.f(X0.post, 'previous_element'), 'u64'), E, [300]), 'later:delta:%s:previous' % who, 'DeltaContext::%s remembers %s instead of the element' % (who, show(d.f(X0.post, 'previous_element'), 6)))
                ks = [o for o in stream_ops(stream(Wn.st.eff, SNIL()))]
                okw = len(ks) == 1 and ks[0].a[0].a[0] == 'i' and Wn.R.eqv(Wn.st, tocast(ks[0].a[0].a[1], 'u64'), CAST(BIN('Add', M, INT(1, 'u8'), 'u8'), 'u8', 'u64'), [100])
                ob(okw, 'later:delta:width', 'DeltaContext::write codes a delta as %s; a difference of bit length max_bit_number needs max_bit_number + 1 signed bits' % ', '.join(kshow(o.a[0].a) for o in ks), 'delta width')
                if okw: ob(Wn.R.eqv(Wn.st, tocast(ks[0].a[1], 'i64'), CAST(BIN('Sub', E, prev, 'u64'), 'u64', 'i64'), [200]), 'later:delta:difference', 'DeltaContext::write codes %s instead of the difference to the previous element' % show(ks[0].a[1], 6))
        guarded(c, 'delta:later:' + name, later)

def assumed(R, facts):
    st = State()
    for f, v in facts: R.I.assume(st, f, v)
    return st


# ------------------------------------------------------------------ arrays
class ARun:
    """Array<T> methods with an opaque array trait, one of the eight combinations of packed / fixed length / element alignment"""
    def __init__(self, F, packed, fixed, offs):
        self.F = F
        ad = F.adts['zserio::ztype::array::Array']
        names = [f[0] for f in ad['variants'][0]['fields']]
        self.ix = {n: i for i, n in enumerate(names)}
        if set(names) != {'array_trait', 'is_packed', 'fixed_size'}: raise AnalysisError('Array has fields %s' % names)
        self.N = SYM('fixed_len', 'usize')
        self.A = SYM('array'); v = mk('deref', self.A)
        v = WITH(v, ('f', None, self.ix['is_packed']), BOOL(packed))
        v = WITH(v, ('f', None, self.ix['fixed_size']), SOME(self.N) if fixed else NONE())
        self.pre = v
        self.data = SYM('data'); self.DATA = mk('deref', self.data)
        self.off = SOME(SYM('offsets')) if offs else NONE()
        self.packed, self.fixed, self.offs = packed, fixed, offs
        self.name = '%s %s%s' % ('packed' if packed else 'unpacked', 'fixed length' if fixed else 'auto length', ' aligned' if offs else '')
    def body(self, n):
        b = self.F.bodies.get(ARR + n)
        if b is None: raise AnalysisError('Array::%s is gone' % n)
        return b
    def run(self, n, args, w, facts=(), I=None, env=None):
        I = I or Interp(self.F, policy=w.policy); w.I = I
        R = w if isinstance(w, Reader) else Reader(self.F, 'array'); R.I = I; w.R = R
        I.decide_hook = R.decide
        st = State()
        st.env[('P', self.A)] = self.pre
        if env: st.env.update(env)
        for c, v in facts: I.assume(st, c, v)
        b = self.body(n)
        fr = I.new_frame(b, {}, 0)
        for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
        outs = I.run(fr, 0, {}, st)
        s = outs.get('ret')
        if s is None: raise AnalysisError('Array::%s never returns' % n)
        w.st = s; w.ret = I.deep(s, s.env.get(('L', fr.fid, 0), UNIT()))
        return w
def drop_ops(s, kinds):
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'sop':
            t = go(x.a[2]); r = t if x.a[0].a[0] in kinds else SOP(x.a[0], x.a[1], t)
        elif x.op == 'ite':
            a, b = go(x.a[1]), go(x.a[2]); r = a if a is b else SITE(x.a[0], a, b)
        elif x.op == 'sfact': r = mk('sfact', x.a[0], go(x.a[1]))
        elif x.op == 'sloop':
            b = go(x.a[1].a[1])
            r = go(x.a[2]) if b.op == 'sback' else SLOOP(x.a[0], mk('lam', x.a[1].a[0], b), go(x.a[2]))
        else: r = x
        memo[x] = r
        return r
    return go(s)

def R01(c):
    c.rule('Array<T> with an opaque element trait, for all combinations of packed / fixed length / element alignment: writing emits [length], then for every element in order the alignment (aligned arrays) and the element exactly once, after a fresh context was initialised with every element; '
           'zserio_read and read_one_element consume exactly that; zserio_bitsize and zserio_bitsize_packed add up exactly that from the given position')
    c.assumptions += ['array traits behave as R03 establishes (a constant element size does not depend on element or position)', 'fewer than 2^32 elements or the length prefix write fails (W05)', 'no u64 overflow in sizes']
    F = build.load('rt')
    for packed in (False, True):
        for fixed in (False, True):
            for offs in (False, True):
                a = ARun(F, packed, fixed, offs)
                guarded(c, 'array:%s:analysis' % a.name, lambda: array(c, F, a))
    c.floor('array obligations', 100)
    R02(c)

class AWire(Wire):
    pass

def context_rule(c, a, who, w, packed):
    use = getattr(w, 'ctxuse', [])
    mkc = [u for u in use if u[0] == 'create']; us = [u for u in use if u[0] != 'create']
    if not packed: return
    ids = {u[1] for u in us}
    c.check(bool(us) and len(ids) == 1 and len({u[1] for u in mkc} & ids) == 1, 'array:%s:%s:context' % (a.name, who), 'Array::%s (%s) does not use one context for initialising and coding all elements (created at lines %s, used %s)' % (
        who, a.name, [u[3] for u in mkc], [(u[0], u[3]) for u in us]), 'array obligations', 'one context for all elements')
    c.check(all(u[2] == 0 for u in mkc if u[1] in ids), 'array:%s:%s:context:loop' % (a.name, who), 'Array::%s (%s) creates a new context for every element' % (who, a.name), 'array obligations')

def array(c, F, a):
    def ob(cond, key, msg, sample=None): c.check(cond, 'array:%s:%s' % (a.name, key), msg, 'array obligations', sample)
    D, n = a.DATA, LEN(a.DATA)
    w = a.run('zserio_write', [a.A, SYM('writer'), a.data, a.off], Wire(F, 'array', 'write'))
    s = stream(w.st.eff, SNIL())
    rd = Reader(F, 'array'); rd.I = Interp(F); rd.I.decide_hook = rd.decide
    facts = topfacts(w.st.eff)
    TRV = None
    for x in stream_ops(s):
        if x.a[0].a[0] in ('elem', 'elemp', 'einit'): TRV = x.a[0].a[1]
    if TRV is None: ob(False, 'elements', 'Array::zserio_write (%s) writes no elements' % a.name); return
    # ---- what must be written, from the zserio specification
    i = SYM('i#', 'usize')
    ctx = mk('app', 'actx', TRV)
    el = PROJ(D, ('i', i))
    item = SOP(mk('kind', 'elemp', TRV, ctx) if a.packed else mk('kind', 'elem', TRV), el, mk('sback'))
    if a.offs: item = SOP(mk('kind', 'align', INT(8, 'u64')), UNIT(), item)
    want = SLOOP(n, mk('lam', i, item), SNIL())
    init = SLOOP(n, mk('lam', i, SOP(mk('kind', 'einit', TRV, ctx), el, mk('sback'))), want)
    pre = init if a.packed else want
    if not a.fixed:
        pre = SOP(mk('kind', 'varsize'), CAST(n, 'usize', 'u32'), pre)
    def strip(x):     # facts aside; varsize of the element count
        while x.op == 'sfact': x = x.a[1]
        return x
    if a.fixed:
        ob(any(rd.eqv(assumed(rd, [(f, True)]), n, a.N, [100]) for f in facts), 'length', 'Array::zserio_write (%s) does not reject data whose length differs from the fixed length' % a.name, 'fixed length enforced')
    st = State()
    for f in facts:
        if f.op != 'forall': rd.I.assume(st, f, True)
    d = wstream_equal(rd, st, s, pre, [300])
    if not a.fixed: ob(BIN('Le', n, INT(2**32 - 1, 'usize'), 'bool') in facts, 'length:fits', 'Array::zserio_write (%s) truncates an element count above 2^32 - 1' % a.name)
    ob(d is None, 'write', 'Array::zserio_write (%s): %s' % (a.name, d), '%s: every element written once, in order' % a.name)
    context_rule(c, a, 'zserio_write', w, a.packed)
    # ---- reading
    s2 = drop_ops(s, ('einit',))
    def reading():
        r = Reader(F, 'array', forall=[f for f in facts if f.op == 'forall']); r.bodies = []
        I = MInterp(F, policy=r.policy); I.rd = r
        fs = [(f, True) for f in facts if f.op != 'forall']
        q = a.run('zserio_read_array_length', [a.A, SYM('reader')], r, fs, I, {X: s2, XK: INT(0, 'usize')})
        got = okpart(q.ret); st1 = q.st
        ob(r.eqv(st1, got, n, [200]), 'readlen', 'Array::zserio_read_array_length (%s) yields %s instead of the number of elements written' % (a.name, show(got, 5)), 'array length read back')
        rest, k = st1.env[X], st1.env[XK]
        OUT = SYM('out')
        r2 = Reader(F, 'array', forall=r.forall); r2.bodies = []
        I2 = MInterp(F, policy=r2.policy); I2.rd = r2
        q = a.run('zserio_read', [a.A, SYM('reader'), OUT, got, a.off], r2, fs, I2, {X: rest, XK: k})
        st2 = q.st
        ob(ended(r2, st2, r2.head(st2)), 'read:rest', 'Array::zserio_read (%s) consumes less than was written: %s remains' % (a.name, heads(r2.head(st2))))
        out = I2.deep(st2, st2.env.get(('P', OUT), mk('deref', OUT)))
        ob(r2.eqv(st2, out, D, [1000]), 'read:data', 'Array::zserio_read (%s) returns %s instead of the elements written' % (a.name, show(out, 6)), '%s: elements read back in order' % a.name)
        for k, m in r.viol + r2.viol: ob(False, 'read:' + k, m)
        context_rule(c, a, 'zserio_read', r2, a.packed)
        st0 = State()
        for f, v in fs: I2.assume(st0, f, v)
        for e in leaves(st1.eff + st2.eff):
            if e[0] in ('panic', 'fail') and not opaque_fail(e[1]) and I2.decide(st0, e[1]) is not False and not infeasible(r2, st0, e[1]):
                ob(False, 'read:reject', 'Array::zserio_read (%s) can reject or abort on written data (%s when %s)' % (a.name, e[0], show(e[1], 5)))
    guarded(c, 'array:%s:read' % a.name, reading)
    # ---- one element
    def one():
        k = SYM('position', 'usize'); it, cx = SYM('item'), SYM('context')
        x = subst_stream(item, {i: k})
        r = Reader(F, 'array'); r.bodies = []
        I = MInterp(F, policy=r.policy); I.rd = r
        q = a.run('read_one_element', [a.A, SYM('reader'), cx, it, k, a.off], r, [], I, {X: x, XK: INT(0, 'usize'), ('P', cx): ctx})
        h = r.head(q.st)
        ob(h.op == 'sback', 'one:rest', 'Array::read_one_element (%s) consumes less than one element: %s remains' % (a.name, heads(h)))
        v = I.deep(q.st, q.st.env.get(('P', it), mk('deref', it)))
        ob(r.eqv(q.st, v, PROJ(D, ('i', k)), [200]), 'one:value', 'Array::read_one_element (%s) yields %s' % (a.name, show(v, 5)), 'single element read back')
    guarded(c, 'array:%s:one' % a.name, one)
    # ---- sizes
    pos = SYM('pos', 'u64')
    fs = [(f, True) for f in facts if f.op != 'forall']
    for fn in ('zserio_bitsize',) + (('zserio_bitsize_packed',) if a.packed else ()):
        def size():
            q = a.run(fn, [a.A, a.data, a.off, pos], Wire(F, 'array', 'size'), fs)
            end = written(drop_eff(w.st.eff), pos)
            for name, const in (('', None),) if a.packed else ((' (constant element size)', True), (' (other element sizes)', False)):
                st0 = State()
                for f, v in fs: w.R.I.assume(st0, f, v)
                if const is not None: w.R.I.assume(st0, mk('app', 'constsize', TRV, ty='bool'), const)
                d = size_equal(w.R, st0, okpart(q.ret), BIN('Sub', end, pos, 'u64'), [400])
                ob(d is None, fn + name, 'Array::%s (%s)%s: %s' % (fn, a.name, name, d), '%s %s' % (a.name, fn))
            # contexts: initialised with every element before sizing
            z = drop_ops(stream(q.st.eff, SNIL()), ())
            if a.packed:
                zi = SLOOP(n, mk('lam', i, SOP(mk('kind', 'einit', TRV, ctx), el, mk('sback'))), SNIL())
                d = wstream_equal(rd, st, z, zi, [200])
                ob(d is None, fn + ':init', 'Array::%s (%s) does not register every element before sizing: %s' % (fn, a.name, d))
            else: ob(not list(stream_ops(z)), fn + ':effect', 'Array::%s (%s) touches a packing context' % (fn, a.name))
            context_rule(c, a, fn, q, a.packed)
            for e in leaves(q.st.eff):
                if e[0] == 'panic':
                    st0 = State()
                    for f, v in fs: w.R.I.assume(st0, f, v)
                    ob(str(e[2]).startswith('overflow') or infeasible(w.R, st0, e[1]), fn + ':panic', 'Array::%s (%s) can panic (%s when %s)' % (fn, a.name, e[2], show(e[1], 4)))
        guarded(c, 'array:%s:%s' % (a.name, fn), size)

def drop_eff(eff):
    out = []
    for e in flat(eff):
        if e[0] == 'op' and e[1] == 'put' and e[2][0].a[0] == 'einit': continue
        if e[0] == 'loop':
            L = e[1]
            ops = [x for x in leaves(L.eff) if x[0] in ('op', 'havoc')]
            if ops and all(x[0] == 'op' and x[1] == 'put' and x[2][0].a[0] == 'einit' for x in ops): continue
        if e[0] == 'if': e = (e[0], e[1], drop_eff(e[2]), drop_eff(e[3])) + tuple(e[4:])
        out.append(e)
    return out

def wstream_equal(rd, st, a, b, budget):
    """None when the streams agree under the facts (loops over zero elements vanish)"""
    budget[0] -= 1
    if budget[0] < 0: return 'undecided within the case budget'
    while True:
        if a is b: return None
        if a.op == 'sfact': a = a.a[1]; continue
        if b.op == 'sfact': b = b.a[1]; continue
        n = False
        for x, o in ((a, b), (b, a)):
            if x.op == 'ite':
                c = gatecond(rd, st, x.a[0])
                if c is not None:
                    s1 = State(st.env, [], dict(st.pc)); rd.I.assume(s1, c, True)
                    s2 = State(st.env, [], dict(st.pc)); rd.I.assume(s2, c, False)
                    return wstream_equal(rd, s1, a, b, budget) or wstream_equal(rd, s2, a, b, budget)
        if a.op == 'ite': a = a.a[1] if rd.I.decide(st, a.a[0]) else a.a[2]; continue
        if b.op == 'ite': b = b.a[1] if rd.I.decide(st, b.a[0]) else b.a[2]; continue
        if a.op == 'sdead' or b.op == 'sdead': return None
        if a.op == 'sloop' and rd.iszero(st, a.a[0]): a = a.a[2]; continue
        if b.op == 'sloop' and rd.iszero(st, b.a[0]): b = b.a[2]; continue
        if a.op != b.op: return 'writes %s where %s is due' % (heads(a), heads(b))
        if a.op == 'sop':
            if not (a.a[0] is b.a[0] or a.a[0].a[0] == b.a[0].a[0] and rd.eqv(st, a.a[0], b.a[0], [200])) or not rd.eqv(st, tocast(a.a[1], 'u64') if b.a[1].ty in WIDTH else a.a[1], tocast(b.a[1], 'u64') if b.a[1].ty in WIDTH else b.a[1], [400]):
                return 'writes %s(%s) where %s(%s) is due' % (kshow(a.a[0].a), show(a.a[1], 5), kshow(b.a[0].a), show(b.a[1], 5))
            a, b = a.a[2], b.a[2]; continue
        if a.op == 'sloop':
            if not rd.eqv(st, tocast(a.a[0], 'usize'), tocast(b.a[0], 'usize'), [100]): return 'loops %s times where %s are due' % (show(a.a[0], 4), show(b.a[0], 4))
            i = SYM('i#', 'usize')
            x = subst_stream(a.a[1].a[1], {a.a[1].a[0]: tocast(i, a.a[1].a[0].ty)}); y = subst_stream(b.a[1].a[1], {b.a[1].a[0]: tocast(i, b.a[1].a[0].ty)})
            d = wstream_equal(rd, st, x, y, budget)
            if d: return 'per element: ' + d
            a, b = a.a[2], b.a[2]; continue
        return None if a.op in ('snil', 'sback') else 'cannot compare %s' % a.op

CHECKS = {'R01': R01, 'R02': R02, 'R03': R03}
