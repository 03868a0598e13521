"""G05-G09: generated code against what an independent front end computes from the schemas."""
import struct
from engine import build
from engine.layout import *
from engine.schema import BUILTIN
from checks.gen import short, guarded

_cache = {}
def setup():
    if 'x' not in _cache:
        F = build.load('gen'); G = Gen(F)
        O = Oracle(F, G, F.dir + '/schemas'); L = Layout(O)
        missing = L.roots(); res = []
        while L.todo:
            rt, inst = L.todo.pop()
            g = G.types[rt]
            for packed in (False, True):
                c = Cmp(L, g, inst, packed)
                try: c.run()
                except (Mismatch, AnalysisError, Unsupported, S.SchemaError) as x: c.errs['analysis'] = '%s: %s' % (c.fn, x)
                res.append(c)
        _cache['x'] = (F, G, O, L, missing, res)
    return _cache['x']

def label(c): return '%s%s:%s' % (short(c.g), '' if norm(c.inst.decl.name) == norm(c.g.path.rsplit('::', 1)[-1]) else '=%s' % c.inst, 'packed' if c.packed else 'plain')
def fieldof(c, key):
    n = key.split(':')[0].split(' ')[-1]
    for f in c.inst.decl.fields:
        if f.name == n: return f
    return None
def exprs_of(f):
    return [x for x in (f.cond, f.array[1] if f.array and f.array[0] == 'len' else None, f.align, f.offset, f.type.dyn) if x is not None] + [x for x in f.type.args or ()]

def G05(c):
    c.rule('the wire operations of every generated encoder, extracted from its MIR, are exactly the ones an independent front end derives from the schema: members in declared order, with declared codec, width, array form, optionality, condition, alignment and dispatch, each carrying the member\'s own value, under provably equal conditions')
    c.assumptions += ['array lengths fit the length prefix', 'arithmetic in expressions does not leave the range of its operand type (G07)', 'runtime codecs behave as W01, W04, R01, R03 establish']
    F, G, O, L, missing, res = setup()
    for m in missing: c.violation('missing:' + m, 'no generated type for %s' % m)
    for t, g in G.types.items():
        if t not in L.pairs: c.violation('unpaired:' + short(g), '%s corresponds to no schema type' % g.path)
    for r in res:
        for k, m in r.errs.items(): c.violation('%s:%s' % (label(r), k), m)
        if not r.errs:
            c.ok('encoders', 1, '%s against %s.%s: %d operations, %d conditions' % (r.fn, '.'.join(r.inst.decl.pkg.name), r.inst, r.nops, r.nconds))
        c.count('operations matched', r.nops); c.count('conditions matched', r.nconds)
    c.floor('encoders', 220); c.floor('operations matched', 800)

# ------------------------------------------------------------------ expressions
def function(c, F, G, O, g, inst, fn, ft, fe):
    tag = '%s:fn %s' % (short(g), fn)
    bs = [b for p, b in F.bodies.items() if p.startswith(g.path + '::') and norm(p[len(g.path) + 2:]) == norm(fn)]
    if len(bs) != 1:
        c.violation(tag + ':missing', '%s has %d functions for schema function %s' % (g.path, len(bs), fn)); return
    b = bs[0]; M = O.M
    rd = ORd(F, M); w = Free(F, 'gen')
    pretype(F, SELF(g), g.ty)
    I, fr, outs = setup_run(F, b, w.policy, [OBJ(g)], None, rd.decide, Interp(F, policy=w.policy))
    rd.I = I
    s = outs.get('ret')
    if s is None: c.violation(tag + ':noreturn', '%s never returns' % b.path); return
    O.obl = []
    sc = Scope(O, inst, SELF(g), g.ty)
    ty = O.S.resolve(ft, inst.decl.pkg, O.S.env(inst))
    want = O.retval(ty, O.ev(fe, sc))
    obl = list(O.obl)
    st = State({}, [], {})
    for x in obl: I.assume(st, x, True)
    for e, conds, loops in leafconds(s.eff):
        if e[0] == 'op' or e[0] == 'havoc': c.violation(tag + ':effect', '%s performs %s' % (b.path, e[1])); continue
        if e[0] not in ('fail', 'panic') or opaque_fail(e[1]): continue
        f = NOT(e[1])
        if any(x.op == 'ovf?' for x in walk(f)):
            c.violation(tag + ':overflow', '%s: arithmetic is done in the operands\' type and can overflow (%s)' % (b.path, show(e[1], 5))); continue
        s2 = State({}, [], dict(st.pc))
        dead = False
        for x, v in conds:
            x = M.cond(x)
            d = I.decide(s2, x)
            if d is not None and d != v: dead = True; break
            I.assume(s2, x, v)
        if dead or infeasible(rd, s2, M.cond(e[1])): continue
        if e[0] == 'panic' and len(e) > 2 and str(e[2]).lower().replace('_', '') in ('overflow', 'overflow:neg'): c.violation(tag + ':overflow', '%s: arithmetic is done in the operands\' type and can overflow (%s)' % (b.path, show(e[1], 5))); continue
        c.violation(tag + ':aborts', '%s can abort (%s): %s' % (b.path, e[2] if len(e) > 2 else '', show(e[1], 6)))
    ret = whole(I.deep(s, s.env.get(('L', fr.fid, 0), UNIT())))
    rt = b.locals[0][0] if isinstance(b.locals[0], list) else b.locals[0]
    while rt[0] == 'ref': rt = rt[2]
    ok = value_is(O, rd, st, ret, rt, want)
    if ok == 'overflow':
        c.violation(tag + ':overflow', '%s: operands are cast to 32 bits: the result is right only modulo 2**32 (%s)' % (b.path, show(ret, 5))); return
    c.check(ok is None, tag + ':value', '%s: %s' % (b.path, ok), 'functions', '%s = %s' % (b.path, show(ret, 6)))

def value_is(O, rd, st, t, rt, v):
    """None when the Rust value t of type rt equals v under st"""
    M = O.M
    bud = [400]
    if rt[0] == 'int':
        p = O.num(v)
        return None if M.equal(rd, st, M.of(t), p, bud, T.WIDTH[rt[1]]) else 'the value is %s, the schema says %s' % (show(t, 6), pshow(p))
    if rt[0] == 'bool':
        x = O.tobool(v)
        return None if M.cond_equal(rd, st, M.cond(t), x, bud) else 'the condition is %s, the schema says %s' % (show(M.cond(t), 8), show(x, 8))
    if rt[0] == 'adt':
        ad = O.F.adts.get(rt[1])
        if v.k == 'enum' and ad and ad['kind'] == 'enum':
            return None if M.equal(rd, st, M.of(DISCR(t, ad)), v.x, bud) else 'the item is %s, the schema says %s' % (show(t, 6), pshow(v.x))
        if v.k == 'mask' and ad:
            b = PROJ(t, ('f', None, 0)); b.ty = b.ty or tystr(ad['variants'][0]['fields'][0][1])
            return None if M.equal(rd, st, M.of(b), v.x, bud, T.WIDTH[b.ty]) else 'the flags are %s, the schema says %s' % (show(b, 6), pshow(v.x))
    if rt[0] == 'float' and v.k in ('num', 'enum', 'mask') and t.op == 'cast' and t.a[0].ty in T.WIDTH:
        p = O.num(v)
        if M.equal(rd, st, M.of(t.a[0]), p, bud): return None
        return 'overflow' if M.equal(rd, st, M.of(t.a[0]), p, bud, 32) else 'the value is %s, the schema says %s' % (show(t, 6), pshow(p))
    if v.k == 'flt':
        a, b = M.flt(t), M.flt(v.x)
        return None if a is b or rd.eqv(st, a, b, bud) else 'the value is %s, the schema says %s' % (show(a, 6), show(b, 6))
    if v.k in ('str', 'obj', 'arr', 'blob') and isinstance(v.x, N):
        a, b = M.canon(t), M.canon(v.x)
        if a is b or rd.eqv(st, a, b, bud): return None
        return 'the value is %s, the schema says %s' % (show(a, 6), show(b, 6))
    return 'a value of type %s cannot be compared with %r' % (ty_str(rt), v)
def pshow(p): return ' '.join('%+d%s' % (c, '' if m == () else '*' + '*'.join(show(a, 5) for a in m)) for m, c in p.items()) or '0'

def constants(c, F, O):
    by = {}
    for p, x in F.consts.items():
        seg = p.split('::')
        if seg[0] == 'corpus': by.setdefault((tuple(norm(y) for y in seg[1:-2]), norm(seg[-1])), []).append((p, x))
    for p in O.S.packages.values():
        for d in p.decls.values():
            if d.kind != 'const': continue
            tag = 'const %s.%s' % ('.'.join(p.name), d.name)
            def run():
                hit = by.get((tuple(norm(x) for x in p.name), norm(d.name)), [])
                hit = [h for h in hit if norm(h[0].split('::')[-2]) == norm(d.name)] or hit
                if len(hit) != 1: c.violation(tag + ':missing', '%d generated constants for %s' % (len(hit), d.name)); return
                path, (ty, val, span, name) = hit[0]
                v = O.constval(d); want = None
                if v.k in ('num', 'enum', 'mask'): want = O.M.cval(v.x); got = val[1]
                if ty[0] == 'float':
                    f = float(v.x.a[0]) if v.k == 'flt' else float(O.M.cval(v.x))
                    want = struct.unpack('<I' if ty[1] == 'f32' else '<Q', struct.pack('<f' if ty[1] == 'f32' else '<d', f))[0]; got = val[1]
                elif v.k == 'bool': want = 1 if v.x is BOOL(True) else 0; got = val[1]
                elif v.k == 'str': want = v.x.a[0]; got = val[1]
                c.check(want is not None and got == want, tag + ':value', '%s is %r, the schema says %r' % (path, got, want), 'constants', '%s = %r' % (path, got))
                # the declared type
                t = O.S.resolve(d.type, p, {})
                r = represents(O, None, t, ty[2] if ty[0] == 'ref' and ty[2] != ('str',) else ty)
                if r: c.violation(tag + ':type', '%s: %s' % (path, r))
            guarded2(c, tag, run)

def guarded2(c, key, f):
    try: return f()
    except (Mismatch, AnalysisError, Unsupported, S.SchemaError) as e: c.violation(key + ':analysis', '%s: %s' % (key, e))

def G07(c):
    c.rule('functions, constants, presence conditions, selectors, lengths, widths, alignments and arguments in generated code, extracted from MIR as terms, equal the values an independent evaluator gives the schema expressions, as polynomials and conditions over the same fields, on every path')
    c.assumptions += ['results of functions are compared modulo the width of their declared type', 'numbits is the runtime function N01 covers']
    F, G, O, L, missing, res = setup()
    done = set()
    for rt, d in L.pairs.items():
        g = G.types[rt]
        for inst, why in d.values():
            for fn, ft, fe in inst.decl.funcs:
                guarded2(c, '%s:fn %s' % (short(g), fn), lambda: function(c, F, G, O, g, inst, fn, ft, fe))
    constants(c, F, O)
    for r in res:
        for k, m in r.errs.items():
            f = fieldof(r, k)
            if k.endswith(':align-before-presence'): continue      # G05
            if k == 'analysis' or f is None and r.inst.decl.kind == 'choice' or f is not None and (exprs_of(f) or r.inst.decl.kind == 'choice'):
                c.violation('%s:%s' % (label(r), k), m)
        for k, m in r.overflow.items(): c.violation('%s:%s:overflow' % (short(r.g), k), '%s (%s): arithmetic is done in the operands\' type and can overflow (%s)' % (r.fn, k, m))
        for (w, n), m in r.argerrs.items(): c.violation('%s:%s:argument %s' % (label(r), w, n), m)
        ne = sum(len(exprs_of(f)) for f in r.inst.decl.fields) + (r.inst.decl.kind == 'choice')
        if ne and not r.errs: c.ok('expressions in encoders', ne)
    c.floor('functions', 40); c.floor('constants', 15); c.floor('expressions in encoders', 150)

# ------------------------------------------------------------------ enums and bitmasks
def G06(c):
    c.rule('variants of generated enums and constants of generated bitmasks carry the names and numbers the schema assigns; the number is written with the codec of the declared underlying type; the decoder maps each declared number to its item and fails on every other number')
    F, G, O, L, missing, res = setup()
    for rt, d in L.pairs.items():
        g = G.types[rt]
        for inst, why in d.values():
            if inst.decl.kind == 'enum': guarded2(c, short(g), lambda: enum(c, F, G, O, L, g, inst))
            if inst.decl.kind == 'bitmask': guarded2(c, short(g), lambda: mask(c, F, G, O, g, inst))
    for r in res:
        if r.inst.decl.kind in ('enum', 'bitmask'):
            for k, m in r.errs.items(): c.violation('%s:%s' % (label(r), k), m)
            if not r.errs: c.ok('encoders')
    c.floor('enums', 8); c.floor('bitmasks', 8); c.floor('items', 60); c.floor('decoders', 16)

def enum(c, F, G, O, L, g, inst):
    vals = O.enumvals(inst)
    vs = {norm(v['name']): v for v in g.adt['variants']}
    if len(vs) != len(vals): c.violation('%s:items' % short(g), '%s has %d variants for %d items' % (g.path, len(vs), len(vals)))
    for n, v in vals.items():
        x = vs.get(norm(n)) or next((y for k, y in vs.items() if k.endswith(norm(n)) or k.startswith(norm(n))), None)
        if x is None: c.violation('%s:item %s' % (short(g), n), '%s has no variant for item %s' % (g.path, n)); continue
        c.check(int(x['discr']) == O.discr(v), '%s:item %s' % (short(g), n), '%s::%s is %s, the schema assigns %d' % (g.path, x['name'], x['discr'], v), 'items', '%s.%s = %d' % (inst, n, v))
    c.ok('enums')
    for fn in ('zserio_read', 'zserio_read_packed'):
        w = Free(F, 'gen'); rd = ORd(F, O.M)
        env = {}; args = [OBJ(g), SYM('reader')]
        if fn.endswith('packed'): env[('P', SYM('ctx'))] = G.shape(g); args = [OBJ(g), SYM('ctx'), SYM('reader')]
        I, fr, outs = setup_run(F, g.fn(fn), w.policy, args, env, rd.decide, Interp(F, policy=w.policy)); rd.I = I
        s = outs.get('ret')
        if s is None: c.violation('%s:%s' % (short(g), fn), '%s never succeeds' % g.fn(fn).path); continue
        gets = [e for e in leaves(s.eff) if e[0] == 'op' and e[1] in ('get', 'getobj')]
        if len(gets) != 1: c.violation('%s:%s' % (short(g), fn), '%s reads %d values' % (g.fn(fn).path, len(gets))); continue
        x = whole(gets[0][2][1])
        if x.ty not in T.WIDTH: c.violation('%s:%s' % (short(g), fn), '%s reads %s' % (g.fn(fn).path, show(x, 4))); continue
        fin = s.env.get(('P', OBJ(g)), SELF(g))
        def rejected(st):
            for e, conds, loops in leafconds(s.eff):
                if e[0] in ('fail', 'panic') and not opaque_fail(e[1]) and all(O.M.settled(I, st, q) is v for q, v in conds) and O.M.settled(I, st, e[1]) is True: return e
            return None
        p = O.M.of(x)
        for n, v in vals.items():
            st = State({}, [], {}); I.assume(st, O.M.eq(O.M.add(p, O.M.const(-v))), True)
            r = rejected(st)
            if r: c.violation('%s:%s:%s' % (short(g), fn, n), '%s rejects %d (%s)' % (g.fn(fn).path, v, n)); continue
            q = O.M.resolve(I, st, O.M.of(DISCR(fin, g.adt)))
            c.check(q == O.M.const(O.discr(v)), '%s:%s:%s' % (short(g), fn, n), '%s decodes %d as %s' % (g.fn(fn).path, v, pshow(q)), 'numbers decoded')
        # every other number the codec can produce, each period of a cast on its own
        rg = (ctxrange(L, w.kinds[x], x) if x in w.kinds and w.kinds[x][0] == 'ctx' else w.ranges(I, State({}, [], {}), x, 0)) or T.rng(x.ty)
        cuts = sorted({rg[0], rg[1] + 1} | {z for z in (-(1 << 63), 0, 1 << 63) if rg[0] < z <= rg[1]})
        bad = None
        for lo, hi in zip(cuts, cuts[1:]):
            st = State({}, [], {})
            I.assume(st, O.M.ge(O.M.add(p, O.M.const(-lo))), True); I.assume(st, O.M.ge(O.M.add(O.M.const(hi - 1), p, -1)), True)
            for v in vals.values(): I.assume(st, O.M.eq(O.M.add(p, O.M.const(-v))), False)
            r = rejected(st)
            if r is None: bad = 'accepts numbers that belong to no item'
            elif r[0] == 'panic': bad = 'panics on numbers that belong to no item'
        c.check(bad is None, '%s:%s:unknown' % (short(g), fn), '%s %s' % (g.fn(fn).path, bad), 'decoders', '%s: %d numbers, the rest fails' % (g.fn(fn).path, len(vals)))

def ctxrange(L, kind, x):
    k = L.codec(kind[2], ('int', x.ty))
    if k[0] in ('u', 'i') and isinstance(k[1], N) and k[1].op == 'int':
        n = k[1].a[0]
        return (0, (1 << n) - 1) if k[0] == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    return None

def mask(c, F, G, O, g, inst):
    vals = O.enumvals(inst)
    have = {}
    for p, (ty, val, span, name) in F.consts.items():
        if p.startswith(g.path + '::') and ty == g.ty: have[norm(p.rsplit('::', 1)[-1])] = val
    for n, v in vals.items():
        x = have.get(norm(n))
        if x is None: x = next((y for k, y in have.items() if k.endswith(norm(n)) or k.startswith(norm(n))), None)
        if x is None: c.violation('%s:item %s' % (short(g), n), '%s has no constant for %s' % (g.path, n)); continue
        c.check(x[0] == 'int' and x[1] == v, '%s:item %s' % (short(g), n), '%s: %s is %s, the schema assigns %d' % (g.path, n, x[1], v), 'items', '%s.%s = %d' % (inst, n, v))
    c.ok('bitmasks')

# ------------------------------------------------------------------ types
VARR = {'varint16': 'i16', 'varint32': 'i32', 'varint64': 'i64', 'varint': 'i64', 'varuint16': 'u16', 'varuint32': 'u32', 'varuint64': 'u64', 'varuint': 'u64', 'varsize': 'u32'}
def represents(O, L, ty, rt):
    """None when Rust type rt can hold the schema type ty"""
    if ty.inst is not None:
        if L is None: return None
        if rt not in L.pairs: return '%s is represented by %s' % (ty, ty_str(rt))
        if ty.inst.key not in L.pairs[rt]: return '%s is represented by %s, which stands for %s' % (ty, ty_str(rt), ', '.join(str(i) for i, _ in L.pairs[rt].values()))
        return None
    b = ty.b; bad = '%s is represented by %s' % (ty, ty_str(rt))
    if b == 'bool': return None if rt == ('bool',) else bad
    if b in ('float16', 'float32'): return None if rt in (('float', 'f32'), ('float', 'f64')) else bad
    if b == 'float64': return None if rt == ('float', 'f64') else bad
    if b == 'string': return None if rt[0] == 'adt' and rt[1].endswith('::String') or rt[0] in ('ref', 'str') else bad
    if b == 'bytes': return None if rt[0] == 'adt' and not rt[1].startswith('corpus') else bad
    if b == 'extern': return None if rt[0] == 'adt' and not rt[1].startswith('corpus') else bad
    if rt[0] != 'int': return bad
    if b in VARR: need = VARR[b]
    elif b in FIXW: need = FIXW[b][0] + str(FIXW[b][1])
    else:
        w = ty.bits or 64
        need = ('u' if b == 'bit' else 'i') + str(next(x for x in (8, 16, 32, 64) if w <= x))
    lo, hi = T.rng(need); l, h = T.rng(rt[1])
    if (lo < 0) != (l < 0) or l > lo or h < hi: return bad
    return None

def G08(c):
    c.rule('every member, parameter, function result and constant has a Rust type able to represent exactly the type an independent resolver gives it (scoping, imports, qualified names, subtypes, template arguments); non-template types are the module of their own declaration; no Rust type stands for two different instantiations; members whose type is a name are encoded as the type it denotes')
    F, G, O, L, missing, res = setup()
    home = {}
    for rt, d in L.pairs.items():
        for inst, why in d.values():
            if why.startswith('declaration') and not inst.decl.tparams and why.endswith('.' + inst.decl.name): home[inst.key] = rt
    for rt, d in L.pairs.items():
        g = G.types[rt]
        if len(d) > 1: c.violation('%s:shared' % short(g), '%s stands for %s' % (g.path, ' and '.join('%s (%s)' % (i, w) for i, w in d.values())))
        else: c.ok('generated types')
        for inst, why in d.values():
            if inst.key in home and home[inst.key] != rt: c.violation('%s:foreign' % short(g), '%s (%s) is represented by %s instead of %s' % (inst, why, ty_str(rt), ty_str(home[inst.key])))
            guarded2(c, short(g), lambda: members(c, F, G, O, L, g, inst))
    for r in res:
        for k, m in r.errs.items():
            f = fieldof(r, k)
            if k.endswith(':align-before-presence'): continue      # G05
            if k == 'analysis' or f is not None and (f.type.name[0] not in BUILTIN or f.type.targs): c.violation('%s:%s' % (label(r), k), m)
    c.floor('generated types', 120); c.floor('members', 350)

def members(c, F, G, O, L, g, inst):
    d = inst.decl
    if d.kind in ('enum', 'bitmask'): return
    env = O.S.env(inst)
    def one(name, tref, f):
        i = O.slot(g.ty, name, inst); rt = O.slots(g.ty)[i][1]
        ty = O.S.resolve(tref, d.pkg, env)
        opt = rt[0] == 'adt' and rt[1] == OPTION
        if f is not None and f.optional and not opt: c.violation('%s:%s:type' % (short(g), name), '%s: optional member %s is a %s' % (g.path, name, ty_str(rt))); return
        if opt:
            if f is None or not (f.optional or f.cond is not None or d.kind != 'struct'): c.violation('%s:%s:type' % (short(g), name), '%s: member %s is a %s' % (g.path, name, ty_str(rt))); return
            rt = rt[2][0]
        if f is not None and f.array is not None:
            if rt[0] != 'adt' or not rt[1].endswith('::Vec'): c.violation('%s:%s:type' % (short(g), name), '%s: array member %s is a %s' % (g.path, name, ty_str(rt))); return
            rt = rt[2][0]
        r = represents(O, L, ty, rt)
        c.check(r is None, '%s:%s:type' % (short(g), name), '%s: member %s: %s' % (g.path, name, r), 'members', '%s.%s: %s' % (g.name, name, ty))
    for n, t in d.params: one(n, t, None)
    for f in d.fields: one(f.name, f.type, f)
    for fn, ft, fe in d.funcs:
        bs = [b for p, b in F.bodies.items() if p.startswith(g.path + '::') and norm(p[len(g.path) + 2:]) == norm(fn)]
        if len(bs) == 1:
            rt = bs[0].locals[0][0] if isinstance(bs[0].locals[0], list) else bs[0].locals[0]
            while rt[0] == 'ref' and rt[2] != ('str',): rt = rt[2]
            r = represents(O, L, O.S.resolve(ft, d.pkg, env), rt)
            c.check(r is None, '%s:fn %s:type' % (short(g), fn), '%s: function %s: %s' % (g.path, fn, r), 'function results')

# ------------------------------------------------------------------ parameters
def G09(c):
    c.rule('wherever a generated decoder, interpreted against the encoder\'s stream, starts the decoder of a parameterised member, each parameter of the receiving object equals the value the schema gives its argument expression at that place, element index included; the encoder refuses objects whose parameters differ')
    F, G, O, L, missing, res = setup()
    for r in res:
        if r.inst.decl.kind in ('enum', 'bitmask'): continue
        for k, m in r.errs.items():
            f = fieldof(r, k)
            if k == 'analysis' or f is not None and f.type.args: c.violation('%s:%s' % (label(r), k), m)
        for (w, n), m in r.argerrs.items(): c.violation('%s:%s:argument %s' % (label(r), w, n), m)
        guarded2(c, label(r), lambda: params(c, F, G, O, L, r))
    c.floor('arguments passed', 80); c.floor('parameterised members', 60)

def params(c, F, G, O, L, r):
    d = r.inst.decl
    want = {}
    for f in d.fields:
        m, slot, opt = r.mem(f)
        if m.ty.inst is None or not m.ty.inst.decl.params: continue
        et = m.rt
        if f.array is not None: et = m.rt[2][0]
        want[f.name] = (m, et, {O.slot(et, n, m.ty.inst): n for n, _ in m.ty.inst.decl.params})
    if not want: return
    rd = G.mirror(r.g, r.packed)
    tag = label(r)
    for k, m in rd.viol:
        if k in ('index', 'paramarray', 'elemctx'): c.violation('%s:%s' % (tag, k), m)
    seen = {}
    for s2, x, y, where, Ts, slot in rd.paramstates:
        hit = None
        base = y.a[0] if y.op == 'fld' else None
        for n, (m, et, ps) in want.items():
            if base is m.term and m.f.array is None: hit = (n, m, et, ps, None)
            elif base is not None and m.f.array is not None and base.op == 'fld' and base.a[0] is m.term and base.a[1][0] == 'i': hit = (n, m, et, ps, base.a[1][1])
        if hit is None:
            c.violation('%s:param' % tag, '%s: cannot tell which member receives parameter %s' % (where, show(y, 5))); continue
        n, m, et, ps, idx = hit
        if slot not in ps: continue
        st = State({}, [], {})
        for q, v in s2.pc.items():
            if isinstance(q, N) and q.op != 'forall':
                q = O.M.cond(q)
                if r.I.decide(st, q) is None: r.I.assume(st, q, v)
        for pn, have, arg, prt in r.args(m, PROJ(m.term, ('i', idx)) if idx is not None else m.term, et, idx):
            if O.slot(et, pn, m.ty.inst) != slot: continue
            # the value the decoder passes
            pty = O.S.resolve(dict((a, b) for a, b in m.ty.inst.decl.params)[pn], m.ty.inst.decl.pkg, O.S.env(m.ty.inst))
            if x.ty is None and tystr(prt): x.ty = tystr(prt)
            r.rd.I = r.I
            got = O.value(whole(x), pty, prt)
            bad = [q for q in r.vfacts(got, arg, prt) if not eqholds(r, st, q)]
            c.check(not bad, '%s:%s:param %s' % (tag, n, pn), '%s: parameter %s of %s is set to %s, the schema says %s' % (where, pn, n, show(whole(x), 6), show_expr(m.ty.args[list(ps.values()).index(pn)]) if m.ty.args else '?'), 'arguments passed')
            seen.setdefault(n, set()).add(slot)
    for n, (m, et, ps) in want.items():
        for slot, pn in ps.items():
            if slot not in seen.get(n, ()): c.violation('%s:%s:unset %s' % (tag, n, pn), '%s: %s is decoded without parameter %s being followed' % (rd.path, n, pn))
        c.ok('parameterised members', 1, '%s.%s' % (r.g.name, n))

def eqholds(r, st, q):
    if r.holds(st, q): return True
    # gates inside
    c = gatecond(r.rd, st, q)
    return False

CHECKS = {'G05': G05, 'G06': G06, 'G07': G07, 'G08': G08, 'G09': G09}
