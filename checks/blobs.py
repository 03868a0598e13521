"""W04: strings, byte blocks and externs."""
from engine import build
from checks.runtime import *
Z = 'zserio::ztype::'
from checks.scalars import fn as find, w03, w05

def runfn(F, b, mode, args, facts=(), env=None, w=None, I=None):
    w = w or Wire(F, 'array', mode); I = I or Interp(F, policy=w.policy); w.I = I
    R = w if isinstance(w, Reader) else Reader(F, 'array'); R.I = I; w.R = R; I.decide_hook = R.decide
    st = State()
    if env: st.env.update(env)
    for c, v in facts: I.assume(st, c, v)
    fr = I.new_frame(b, {}, 0)
    for i, a in enumerate(args): st.env[('L', fr.fid, i + 1)] = a
    outs = I.run(fr, 0, {}, st)
    s = outs.get('ret')
    if s is None: raise AnalysisError('%s never returns normally' % b.path)
    w.st = s; w.ret = I.deep(s, s.env.get(('L', fr.fid, 0), UNIT()))
    return w

def bytevals(t, atom):
    """value of a term over one byte, for all 256 bytes; None when it depends on anything else"""
    out = []
    for b in range(256):
        r = subst(t, {atom: INT(b, 'u8')})
        if not isint(r): return None
        out.append(r.a[0])
    return out

def loop8(src, n, tail):
    i = SYM('i#', 'usize')
    return SLOOP(n, mk('lam', i, SOP(mk('kind', 'u', INT(8, 'u64')), CAST(PROJ(src, ('i', i)), 'u8', 'u64'), mk('sback'))), tail)

def W04(c):
    c.rule('string, bytes and extern codecs: writing emits varsize(length) and exactly the payload in order (extern: all full bytes, then the leading size%8 bits of the last byte, decided per residue), reading mirrors it and yields an equal value, '
           'the size function adds up exactly the bits written, and a value whose stated length disagrees with its data is rejected')
    c.assumptions += ['a String is valid UTF-8 (type invariant)', 'byte counts times 8 do not overflow u64', 'varsize behaves as W01, W02, W03 establish', 'the reader holds the bits the writer produced (its remaining() covers them)']
    F = build.load('rt')
    strings(c, F); blob(c, F, 'bytes'); 
    for k in range(8): blob(c, F, 'extern', k)
    c.floor('codec obligations', 55)

def need(F, n):
    b = find(F, n)
    if b is None: raise AnalysisError('function %s is gone' % n)
    return b

def mirror(F, b, args, s, facts):
    r = Reader(F, 'array'); r.bodies = []
    I = MInterp(F, policy=r.policy); I.rd = r
    w = runfn(F, b, 'mirror', args, facts, {X: s, XK: INT(0, 'usize')}, r, I)
    return w, r, I

def rejects(r, I, facts, eff, key, what, ob):
    st0 = State()
    for f, v in facts: I.assume(st0, f, v)
    for e in leaves(eff):
        if e[0] in ('panic', 'fail') and not opaque_fail(e[1]) and not any(y.op == 'app' and 'remaining' in str(y.a[0]) for y in walk(e[1])):
            if str(e[2]).startswith('overflow:Mul'): continue
            if not (e[1].op == 'int' and not e[1].a[0]) and I.decide(st0, e[1]) is not False and not infeasible(r, st0, e[1]):
                ob(False, key, '%s can reject or abort on written data (%s when %s)' % (what, e[0], show(e[1], 6)))

def strings(c, F):
    def ob(cond, key, msg, sample=None): c.check(cond, 'string:' + key, msg, 'codec obligations', sample)
    def go():
        v = SYM('string'); V = mk('deref', v); n = LEN(V)
        wb, rb, sb = need(F, 'write_string'), need(F, 'read_string'), need(F, 'bitsize_string')
        w = runfn(F, wb, 'write', [SYM('writer'), v])
        s = stream(w.st.eff, SNIL())
        fs = [(f, True) for f in topfacts(w.st.eff) if f.op != 'forall']
        want = SOP(mk('kind', 'varsize'), CAST(n, 'usize', 'u32'), loop8(V, n, SNIL()))
        st = State()
        for f, x in fs: w.I.assume(st, f, x)
        d = wstream_equal(w.R, st, s, want, [200])
        ob(d is None, 'write', '%s: %s' % (wb.path, d), 'string: length and bytes in order')
        allowed = BIN('Le', n, INT(2**32 - 1, 'usize'), 'bool')
        for f, x in fs: ob(f is allowed, 'write:reject', '%s rejects strings unless %s' % (wb.path, show(f, 5)))
        for e in leaves(w.st.eff):
            if e[0] == 'panic': ob(infeasible(w.R, st, e[1]), 'write:panic', '%s can panic (%s)' % (wb.path, e[2]))
        narrow(c, 'string', wb.path, CAST(n, 'usize', 'u32'), 'varsize', [f for f, x in fs])
        q, r, I = mirror(F, rb, [SYM('reader')], s, fs)
        ob(ended(r, q.st, r.head(q.st)), 'read:rest', '%s consumes less than was written' % rb.path)
        ob(r.eqv(q.st, okpart(q.ret), V, [300]), 'read:value', '%s yields %s instead of the written string' % (rb.path, show(okpart(q.ret), 6)), 'string read back')
        for k, m in r.viol: ob(False, 'read:' + k, m)
        rejects(r, I, fs, q.st.eff, 'read:reject', rb.path, ob)
        z = runfn(F, sb, 'size', [v], fs)
        d = size_equal(w.R, st, okpart(z.ret), written(w.st.eff, INT(0, 'u64')), [200])
        ob(d is None, 'size', '%s: %s' % (sb.path, d), 'string size')
    guarded(c, 'string:analysis', go)

def blob(c, F, name, k=None):
    tag = name if k is None else '%s (size %% 8 = %d)' % (name, k)
    def ob(cond, key, msg, sample=None): c.check(cond, '%s:%s' % (tag, key), msg, 'codec obligations', sample)
    def go():
        wb, rb, sb = need(F, 'write_%s_type' % name), need(F, 'read_%s_type' % name), need(F, 'bitsize_of_' + name)
        ty = 'zserio::ztype::%s_type::%sType' % (name, name.capitalize())
        ad = F.adts.get(ty)
        if ad is None or len(ad['variants'][0]['fields']) != 2: raise AnalysisError('%s has changed its shape' % ty)
        si = [i for i, f in enumerate(ad['variants'][0]['fields']) if tystr(f[1]) == 'u32']
        di = [i for i, f in enumerate(ad['variants'][0]['fields']) if not tystr(f[1])]
        if len(si) != 1 or len(di) != 1: raise AnalysisError('%s has changed its shape' % ty)
        si, di = si[0], di[0]
        v = SYM('blob'); V = mk('deref', v)
        D = SYM('blobdata')
        q = SYM('quot@' + name, 'u32')
        if name == 'bytes': size = q; cnt = CAST(q, 'u32', 'usize')
        else: size = DM(q, k, 'u32'); cnt = BIN('Add', CAST(q, 'u32', 'usize'), INT(1 if k else 0, 'usize'), 'usize')
        full = CAST(q, 'u32', 'usize')
        def val(data):
            l = [None, None]; l[si] = size; l[di] = data
            return ADT(ty, 0, l)
        # any data: a length that disagrees is rejected
        w = runfn(F, wb, 'write', [SYM('writer'), v], env={('P', v): val(D)})
        fs = [f for f in topfacts(w.st.eff) if f.op != 'forall']
        st = State()
        for f in fs: w.I.assume(st, f, True)
        ob(any(w.R.eqv(st, a, b, [100]) for a, b in ((LEN(D), cnt),)) or any(unchain(f, LEN(D), cnt) for f in fs), 'mismatch', '%s accepts data whose length is not the one stated' % wb.path, '%s: length mismatch rejected' % tag)
        # data of the stated length
        j = SYM('j@' + name, 'usize')
        B = mk('build', mk('vecnew'), cnt, mk('lam', j, mk('fld', D, ('i', j), ty='u8')))
        w = runfn(F, wb, 'write', [SYM('writer'), v], env={('P', v): val(B)})
        st = State()
        for f in topfacts(w.st.eff): 
            if f.op != 'forall': w.I.assume(st, f, True)
        s = stream(w.st.eff, SNIL())
        tail = SNIL(); last = PROJ(B, ('i', full)); tv = None
        if k:
            tv = CAST(BIN('Shr', last, INT(8 - k, 'u8'), 'u8'), 'u8', 'u64')
            tail = SOP(mk('kind', 'u', INT(k, 'u64')), tv, SNIL())
        want = SOP(mk('kind', 'varsize'), size, loop8(B, full, tail))
        d = wstream_equal(w.R, st, normtail(s, last, tv), want, [300])
        ob(d is None, 'write', '%s (%s): %s' % (wb.path, tag, d), '%s: length, full bytes, leading bits of the last' % tag)
        rejects(w.R, w.I, [], w.st.eff, 'write:reject', wb.path, ob)
        qm, r, I = mirror(F, rb, [SYM('reader')], s, [])
        ob(ended(r, qm.st, r.head(qm.st)), 'read:rest', '%s (%s) consumes less than was written' % (rb.path, tag))
        out = okpart(qm.ret)
        if out.op == 'with' or out.op == 'adt': pass
        ob(r.eqv(qm.st, PROJ(out, ('f', None, si)), size, [100]), 'read:size', '%s (%s) states size %s' % (rb.path, tag, show(PROJ(out, ('f', None, si)), 5)))
        od = r.canon(qm.st, PROJ(out, ('f', None, di)))
        while od.op == 'ite':
            dd = I.decide(qm.st, od.a[0])
            if dd is None: break
            od = od.a[1] if dd else od.a[2]
        if not k: ob(r.eqv(qm.st, od, B, [300]), 'read:data', '%s (%s) yields %s instead of the written bytes' % (rb.path, tag, show(od, 6)), '%s read back' % tag)
        else:
            good = od.op == 'push' and r.eqv(qm.st, od.a[0], mk('build', mk('vecnew'), full, mk('lam', j, mk('fld', D, ('i', j), ty='u8'))), [300])
            vals = bytevals(od.a[1], last) if good else None
            ob(good and vals == [(b >> (8 - k)) << (8 - k) for b in range(256)], 'read:data', '%s (%s) yields %s instead of the full bytes and the leading %d bits of the last' % (rb.path, tag, show(od, 6), k), '%s read back' % tag)
        for kk, m in r.viol: ob(False, 'read:' + kk, m)
        rejects(r, I, [], qm.st.eff, 'read:reject', rb.path, ob)
        z = runfn(F, sb, 'size', [v], env={('P', v): val(B)})
        d = size_equal(w.R, st, okpart(z.ret), written(w.st.eff, INT(0, 'u64')), [200])
        ob(d is None, 'size', '%s (%s): %s' % (sb.path, tag, d), tag + ' size')
    guarded(c, tag + ':analysis', go)

def unchain(f, a, b):
    if f.op != 'bin' or f.a[0] != 'Eq': return False
    x, y = f.a[1], f.a[2]
    return (x is a and y is b) or (x is b and y is a) or BIN('Eq', x, y, 'bool') is BIN('Eq', a, b, 'bool')

def normtail(s, last, tv):
    """the value of a final partial write, when it is a function of the last byte equal to the expected one, is spelled as expected"""
    if tv is None: return s
    def f(x):
        if x.op == 'sop' and x.a[1] is not tv and any(y is last for y in walk(x.a[1])) and bytevals(x.a[1], last) is not None and bytevals(x.a[1], last) == bytevals(tv, last):
            return SOP(x.a[0], tv, x.a[2])
        return x
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = f(rebuild(x, go)) if x.op in ('sop', 'sfact', 'sloop', 'ite', 'lam') else x
        return r
    return go(s)


def W03(c):
    w03(c)
    c.rule('the same for strings, byte blocks and externs: length prefix, payload and size function as terms')
    F = build.load('rt')
    strings(c, F); blob(c, F, 'bytes')
    for k in range(8): blob(c, F, 'extern', k)

def W05(c):
    w05(c)
    c.rule('length prefixes of strings, byte blocks, externs and arrays are converted with an overflow check or compared with the data; every value a generated encoder hands to a codec reaches it without a narrowing conversion (enum numbers: all declared numbers fit)')
    F = build.load('rt')
    strings(c, F); blob(c, F, 'bytes')
    for k in range(8): blob(c, F, 'extern', k)
    for packed in (False, True):
        for fixed in (False, True):
            for offs in (False, True):
                a = ARun(F, packed, fixed, offs)
                guarded(c, 'array:%s:analysis' % a.name, lambda: arraylen(c, F, a))
    F = build.load('all'); G = Gen(F)
    for t, g in G.types.items():
        for p in (False, True):
            def go():
                w = G.writer(g, p)
                for o in stream_ops(w.stream):
                    narrow(c, '%s:%s' % (g.name, 'packed' if p else 'plain'), g.fn('zserio_write_packed' if p else 'zserio_write').path, o.a[1], kshow(o.a[0].a), w.facts)
            guarded(c, '%s:analysis' % g.name, go)
    c.floor('encoded values', 500)

def narrow(c, key, where, v, kind, facts):
    bad = []
    for y in walk(v):
        if y.op == 'cast' and y.ty in WIDTH and y.a[0].ty in WIDTH:
            a, b = T.rng(y.ty), T.rng(y.a[0].ty)
            if a[0] <= b[0] and b[1] <= a[1]: continue
            x = y.a[0]
            if b[0] < 0 and WIDTH[y.ty] >= WIDTH[x.ty]: continue            # two's complement reinterpretation of the same width
            if x.op == 'discr' and x.a[1] and all(a[0] <= k <= a[1] for k in x.a[1]): continue
            if x.op == 'discr' and x.a[1] and WIDTH[y.ty] == 64 and all(-1 << 63 <= k < 1 << 63 for k in x.a[1]): continue      # discriminants are isize
            if any(f is BIN('Le', x, INT(a[1], x.ty), 'bool') for f in facts): continue
            bad.append(y)
    c.check(not bad, 'narrow:' + key, '%s hands %s to codec %s: the conversion drops high bits without a check' % (where, show(bad[0], 6) if bad else '', kind), 'encoded values')

def arraylen(c, F, a):
    w = a.run('zserio_write', [a.A, SYM('writer'), a.data, a.off], Wire(F, 'array', 'write'))
    s = stream(w.st.eff, SNIL())
    facts = topfacts(w.st.eff)
    for o in stream_ops(s):
        if o.a[0].a[0] == 'varsize': narrow(c, 'array:' + a.name, 'Array::zserio_write', o.a[1], 'varsize', facts)
    rd = w.R
    if a.fixed: c.check(any(rd.eqv(assumed(rd, [(f, True)]), LEN(a.DATA), a.N, [100]) for f in facts), 'array:%s:length' % a.name, 'Array::zserio_write (%s) does not reject data whose length differs from the fixed length' % a.name, 'encoded values')

CHECKS = {'W04': W04, 'W03': W03, 'W05': W05}
